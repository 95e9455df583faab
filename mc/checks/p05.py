"""P05: failing evaluations never abort an optimization."""
import itertools

import numpy as np

from mc import driver, oracles
from mc.core import Res, Sub, need
from mc.driver import deviation_sets
from mc.runs import FT, LINE, batch, outcome, product_cfg

LEVEL = "fault_enumeration"
RULE = ("every placement of up to k failing evaluations, every failing suffix and all-failing runs x failure kinds x configurations; "
        "non-trivial: at least one evaluation failed")
ASSUMPTIONS = ["the start evaluation succeeds", "numba runs in interpreted mode"]


def fault_oracle(run):
    out = []
    S = run.states
    o = run.opts
    noisy = bool(o.get("noisy"))
    h = run.history
    n = len(S) - 1
    # the run goes on: it ends by one of its normal stopping rules
    if n < run.cfg["iters"] and not run.res["message"]:
        out.append(f"stopped after {n} iterations without a reason")
    if not np.isfinite(float(run.res["solution_criterion"])):
        out.append(f"the returned solution has the value {run.res['solution_criterion']}")
    if not np.isfinite(np.asarray(run.res["solution_x"], float)).all():
        out.append("the returned solution is not finite")
    for i in range(1, n + 1):
        s, p = S[i], S[i - 1]
        if not np.isfinite(float(s.fval)):
            out.append(f"iteration {i} accepted the value {s.fval}")
        if s.accepted and not noisy:
            rec = np.asarray(h.get_fvals(int(s.index)), float)
            if not np.isfinite(rec).all():
                out.append(f"iteration {i} accepted a failed evaluation")
        if not np.isfinite(float(s.trustregion.radius)) or float(s.trustregion.radius) <= 0:
            out.append(f"iteration {i} has radius {s.trustregion.radius}")
        if i < n and run.tap is not None:
            e = [a for a in run.tap.events if a["kind"] == "accept"][i - 1]
            calls = [k for k in range(e["n_fun_before"], e["n_fun_after"]) if oracles.same_x(run.env.calls[k][0], e["sol"].x)
                     and not oracles.same_x(e["sol"].x, p.x)]
            all_k = range(e["n_fun_before"], e["n_fun_after"])
            if calls and not np.isfinite([oracles.call_value(run, k) for k in all_k]).any():
                if s.accepted:
                    out.append(f"iteration {i} accepted a failed candidate")
                r0, r1 = float(s.trustregion.radius), float(S[i + 1].trustregion.radius)
                ro = {**oracles.RADIUS_DEFAULTS, **(o.get("radius_options") or {})}
                inc = noisy and S[i + 1].n_evals_per_point > s.n_evals_per_point
                if not inc and r1 >= r0 and r0 > ro["min_radius"] * (1 + 1e-9):
                    out.append(f"iteration {i}: radius went from {r0} to {r1} after a failed candidate")
        if out:
            break
    return out


def run(cfg):
    r = driver.run_opt({"tap": True, **cfg})
    viol = oracles.no_exception(r)
    if not viol:
        viol = fault_oracle(r) or oracles.record(r)
    failed = sum(1 for _, _, s in r.env.calls if s in "ENIMPQ")
    n_it = len(r.states) - 1 if r.res is not None else 0
    return Res(viol, nontrivial=failed > 0, outcome=outcome(r), states=driver.state_hashes(r), transitions=n_it,
               extra={"failed_evaluations": failed, "criterion_calls": len(r.env.calls)}, sample={"config": cfg, "outcome": outcome(r)})


NO = {"disable_convergence": True}
NOISY = {"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 2}, "acceptance_decider_options": {"n_max": 5, "n_min": 2}}
CONF = [{}, {**LINE, **batch(3)}, batch(4), NOISY, {**NOISY, "acceptance_decider": "naive_noisy"}]


def kinds(ft):
    return ["E", "N", "I", "M"] + (["P", "Q"] if ft != "scalar" else [])


def c_single(tier):
    pol = [{"policy": p, "bounds": b} for b in (None, "nn", "lU") for p in ("f", "up") if tier != "quick" or (p == "f") == (b != "nn")]
    for cfg in product_cfg(functype=FT, cfg1=pol, opts1=[NO], opts2=CONF):
        noisy = cfg["opts"].get("noisy")
        # all evaluations of the start point succeed
        for dev in deviation_sets(30 if noisy else 14, kinds(cfg["functype"]) if tier != "quick" or not noisy else ["E", "M"], 1, first=5 if noisy else 1):
            if dev and (not noisy or tier != "quick" or dev[0][0] % 2):
                yield {**cfg, "dev": dev, "iters": 3 if noisy else 5}


def c_suffix(tier):
    """everything fails from some evaluation on, incl. all but the first"""
    for cfg in product_cfg(functype=FT, bounds=[None, "nn", "jm"], opts1=[NO], opts2=CONF, d=[1, 2] if tier == "quick" else [1, 2, 3]):
        noisy = cfg["opts"].get("noisy")
        for k in ([1, 2, 3, 5, 8] if not noisy else [5, 6, 9, 14]):
            for s in kinds(cfg["functype"]):
                yield {**cfg, "suffix": [k, s], "iters": 4 if not noisy else 2}
        # prefix of failures after the start
        first = 5 if noisy else 1
        for n in (first + 2, first + 5, first + 9):
            for s in kinds(cfg["functype"]):
                yield {**cfg, "dev": [[i, s] for i in range(first, n)], "iters": 4 if not noisy else 2}


def c_patterns(tier):
    """all success/failure patterns of the first evaluations (bit vectors)"""
    n = 8 if tier == "quick" else 11
    for ft in FT:
        for kind in ("E", "I", "M"):
            for bits in itertools.product((0, 1), repeat=n):
                yield {"functype": ft, "dev": [[i + 1, kind] for i, b in enumerate(bits) if b], "iters": 3, "opts": NO}
    for ft in FT[1:]:
        for bits in itertools.product((0, 1), repeat=n - 1):
            yield {"functype": ft, "bounds": "nm", "dev": [[i + 1, "EP"[i % 2]] for i, b in enumerate(bits) if b], "iters": 3, "opts": NO}


def c_pairs(tier):
    for ft in FT:
        for cfg in product_cfg(opts1=[NO], opts2=CONF[:2], bounds=[None] if tier == "quick" else [None, "nn"]):
            for dev in deviation_sets(10, ["E", "I", "M"] if tier == "quick" else kinds(ft), 2):
                if len(dev) == 2:
                    yield {**cfg, "functype": ft, "dev": dev, "iters": 4}


def c_components(tier):
    """fitters, filters and samplers in the presence of failures"""
    for cfg in product_cfg(functype=FT, bounds=[None, "nn"], opts1=[NO],
                           opts2=[{"model_fitter": f} for f in ("ols", "ridge", "tranquilo", "powell")] + [{"residualize": True}, {"sample_size": 6}]
                           + [{"sample_filter": f} for f in ("discard_all", "clustering", "drop_excess")],
                           suffix=[None, [4, "E"], [2, "I"]]):
        for dev in ([], [[1, "E"]], [[2, "M"], [3, "I"]], [[1, "N"], [2, "N"], [3, "N"], [4, "N"]]):
            if cfg["functype"] != "scalar" and cfg["opts"].get("model_fitter") == "powell":
                continue
            if dev or cfg["suffix"]:
                yield {**cfg, "dev": dev, "iters": 4}
    for cfg in product_cfg(functype=FT, bounds=[None, "nn"], base=["flat", "lin", "sin"], opts1=[NO], suffix=[[1, "E"], [3, "I"], [5, "M"]]):
        yield {**cfg, "iters": 30}


SUBS = [
    Sub("single", c_single, run, what="every single failing evaluation by position and kind x configurations"),
    Sub("suffix", c_suffix, run, what="every failing suffix and prefix"),
    Sub("patterns", c_patterns, run, what="all success/failure patterns of the first evaluations"),
    Sub("pairs", c_pairs, run, what="every pair of failing evaluations"),
    Sub("components", c_components, run, what="fitters, filters in the presence of failures; long failing runs"),
]
_ = need
