"""P06: stopping is prompt, truthful and respects the budget."""
import itertools
import time as _time

import numpy as np

from mc import driver, oracles
from mc.core import Res, Sub
from mc.driver import deviation_sets
from mc.runs import FT, LINE, batch, outcome, product_cfg

LEVEL = "model_checking"
RULE = ("tolerance settings (each criterion alone, pairs, all, none, boundary values) x limits x every sequence of acceptance outcomes up to a depth; "
        "the clock is owned by the check; non-trivial: at least one iteration")
ASSUMPTIONS = ["the accepted step's recorded states are truthful (P02)", "numba runs in interpreted mode",
               "comparisons closer than 1e-9 relative to a tolerance are not judged"]

T = "convergence_"
OFF = {f"{T}{a}_{b}_tolerance": -1.0 for a in ("absolute", "relative") for b in ("criterion", "gradient", "params")}
NAMES = list(OFF)


def run(cfg):
    clock = cfg.get("clock")
    real = (_time.perf_counter, _time.time, _time.monotonic)
    times = None
    ticks = []
    cfg2 = {k: v for k, v in cfg.items() if k != "clock"}
    if clock:
        # The clock advances by a fixed amount in every evaluation of the criterion.
        now = [1000.0]

        class Env(driver.Env):
            def __call__(self, x):
                now[0] += clock["per_eval"]
                ticks.append(now[0])
                return super().__call__(x)

        f = lambda: now[0]  # noqa: E731
        _time.perf_counter = _time.time = _time.monotonic = f
        limit = cfg["opts"]["stopping_max_time"]

        def times(run, i):
            e = [a for a in run.tap.events if a["kind"] == "accept"][i - 1]
            return e["n_fun_after"] * clock["per_eval"] >= limit * (1 + 1e-12)
        try:
            r = driver.run_opt({**cfg2, "tap": True}, env_cls=Env)
        finally:
            _time.perf_counter, _time.time, _time.monotonic = real
    else:
        r = driver.run_opt({**cfg2, "tap": True})
    viol = oracles.no_exception(r) or oracles.stopping(r, times)
    n_it = len(r.states) - 1 if r.res is not None else 0
    return Res(viol, nontrivial=n_it > 0, outcome=outcome(r), states=driver.state_hashes(r), transitions=n_it, sample={"config": cfg, "outcome": outcome(r)})


TOLS = {
    "convergence_absolute_criterion_tolerance": [0.0, 1e-3, 0.3],
    "convergence_relative_criterion_tolerance": [0.0, 1e-3, 0.3],
    "convergence_absolute_gradient_tolerance": [0.0, 0.5, 5.0],
    "convergence_relative_gradient_tolerance": [0.0, 0.5, 1.0],
    "convergence_absolute_params_tolerance": [0.0, 0.05, 0.2],
    "convergence_relative_params_tolerance": [0.0, 0.05, 0.2],
}


def c_tolerances(tier):
    depth = 2 if tier == "quick" else 5
    fts = FT
    sets = []
    for k, vals in TOLS.items():
        for v in vals:
            sets.append({**OFF, k: v})
    for (k1, v1), (k2, v2) in itertools.combinations([(k, v[1]) for k, v in TOLS.items()], 2):
        sets.append({**OFF, k1: v1, k2: v2})
    sets.append({})
    sets.append({k: v[2] for k, v in TOLS.items()})
    sets.append({**{k: v[2] for k, v in TOLS.items()}, "disable_convergence": True})
    for ft in fts:
        for s in sets:
            for acc in itertools.product([1.0, 0.02, "T", -1.0], repeat=depth):
                yield {"functype": ft, "acc": list(acc), "iters": depth + 1, "opts": s}
    for cfg in product_cfg(functype=fts, base=["quad", "flat", "lin"], bounds=[None, "nm"], opts1=sets):
        yield {**cfg, "iters": 8}


def c_limits(tier):
    for cfg in product_cfg(functype=FT, opts0=[{"disable_convergence": True}, {}], opts1=[{}, {**LINE, **batch(3)}, {"stagnation_options": {"min_relative_step": 5.0, "max_trials": 3}}],
                           opts2=[{"stopping_max_criterion_evaluations": m} for m in range(1, 19)], policy=["f", "up"]):
        yield {**cfg, "iters": 6}
    for cfg in product_cfg(functype=FT, iters=list(range(0, 7)), bounds=[None, "nm"], opts0=[{"disable_convergence": True}, {}], policy=["f", "up", "down", "tie"]):
        yield cfg


def c_radius(tier):
    kinds = [{"functype": f, "bounds": b} for f in FT for b in (None, "nm") if tier != "quick" or (b is None) == (f == "scalar")]
    for cfg in product_cfg(cfg1=kinds, opts0=[{"disable_convergence": b} for b in (True, False)],
                           opts1=[{"convergence_min_trust_region_radius": r} for r in (0.0, 1e-6, 0.02, 0.0999, 0.5)], opts2=[OFF] if tier == "quick" else [OFF, {}],
                           opts3=[{}, {"radius_options": {"min_radius": 0.01}}]):
        for acc in itertools.product([2.0, 0.02, "E"], repeat=3):
            yield {**cfg, "acc": list(acc), "iters": 8, "policy": "up"}


def c_time(tier):
    for cfg in product_cfg(functype=FT, opts0=[{"disable_convergence": True}], opts1=[{"stopping_max_time": t} for t in (0.5, 3.5, 6.5, 9.5, 12.5, 100.0)],
                           opts2=[{}, {**LINE, **batch(3)}], policy=["f", "up"], bounds=[None, "nm"]):
        yield {**cfg, "clock": {"per_eval": 1.0}, "iters": 6}


def c_answers(tier):
    for cfg in product_cfg(functype=FT, policy=["f", "down", "up", "tie"], base=["quad", "flat"] if tier != "quick" else ["quad"], opts1=[{}, {"convergence_relative_params_tolerance": 0.02}, {**LINE, **batch(4)}]):
        for dev in deviation_sets(12, ["B", "T", "W", "E", "M"], 1):
            yield {**cfg, "dev": dev, "iters": 7}


def c_noisy(tier):
    for cfg in product_cfg(functype=FT, base=["quad", "flat", "lin"], jitter=[0.0, 0.1], bounds=[None, "nm"],
                           opts0=[{"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 2}, "acceptance_decider_options": {"n_max": 5, "n_min": 2}}],
                           opts1=[{}, {"stopping_max_criterion_evaluations": 30}, {"disable_convergence": True}, {"convergence_relative_params_tolerance": 0.1},
                                  {"convergence_absolute_criterion_tolerance": 0.5}]):
        yield {**cfg, "iters": 4}


SCALES = [None, [30.0, 40.0, 0.0], [0.02, 1e-3, 0.0], [4.0, 3.0, 200.0]]


def c_critical(tier):
    """Accepted and rejected steps of problems in different units."""
    accs = [[1.0, 0.5, 1.5, 0.3], [0.2, -1.0, 1.0, 0.05]] if tier == "quick" else [list(a) for a in itertools.product([1.0, 0.3, -1.0], repeat=4)]
    for ft in FT:
        for sc in SCALES:
            for acc in accs:
                for bounds, opts in ((None, {}), ("nm", {}), (None, {**LINE, **batch(3)}), (None, {"noisy": True, "acceptance_decider": "classic", "noise_adaptation_options": {"rho_noise_n_draws": 2}, "n_evals_per_point": 2})):
                    yield {"functype": ft, "scale": sc, "acc": acc, "bounds": bounds, "opts": opts, "iters": len(acc)}


def r_critical(case):
    """Every tolerance at which the decision of one criterion in one iteration changes, just below and just above."""
    base = driver.run_opt({**case, "tap": True, "opts": {**case["opts"], "disable_convergence": True}})
    viol = oracles.no_exception(base)
    if viol:
        return Res(viol, sample=case)
    crit = {}
    S = base.states
    for i in range(1, len(S)):
        for k, v in oracles._measures(S[i - 1], S[i]).items():
            a, b = k.split("_")
            if np.isfinite(v):
                crit.setdefault(f"{T}{a}_{b}_tolerance", set()).add(v)
        r = oracles.next_radius(base, i)
        crit.setdefault(f"{T}min_trust_region_radius", set()).add(r)
    evs = [e["n_fun_after"] for e in base.tap.events if e["kind"] == "accept"]
    settings = [{name: v * f} for name, vals in crit.items() for v in sorted(vals) for f in (1 - 1e-6, 1 + 1e-6)]
    settings += [{"stopping_max_criterion_evaluations": n + e} for n in evs for e in (0, 1)]
    # several points per evaluation or evaluations per point: limits in between
    settings += [{"stopping_max_criterion_evaluations": n} for n in range(1, max(evs), 3)]
    states, outs, n_it = [], set(), 0
    for s in settings:
        r = driver.run_opt({**case, "tap": True, "opts": {**case["opts"], **OFF, **s}})
        n_it += len(r.states) - 1 if r.res is not None else 0
        bad = oracles.no_exception(r) or oracles.stopping(r)
        states += driver.state_hashes(r)
        outs.add(outcome(r))
        if bad:
            viol.append(f"{s}: {bad[0]}")
            break
    return Res(viol, nontrivial=len(settings) > 0, outcome=str(sorted(outs)), states=states, transitions=n_it, sample=case,
               extra={"settings": len(settings)})


SUBS = [
    Sub("critical", c_critical, r_critical, what="every tolerance at which a decision changes, from both sides, in problems of different units"),
    Sub("limits", c_limits, run, what="evaluation and iteration limits, every value in a range"),
    Sub("tolerances", c_tolerances, run, what="convergence settings x all outcome sequences"),
    Sub("radius", c_radius, run, what="radius tolerance x outcome sequences"),
    Sub("time", c_time, run, what="time limits under a controlled clock"),
    Sub("answers", c_answers, run, what="single deviating answers x policies"),
    Sub("noisy", c_noisy, run, what="noisy runs"),
]
_ = np
