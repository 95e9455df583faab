"""P07: the trust region follows its rule and stays within its limits."""
import itertools

import numpy as np

from mc import oracles
from mc.core import Res, Sub, need
from mc.driver import deviation_sets
from mc.runs import FT, LINE, batch, product_cfg, run_case

LEVEL = "model_checking"
RULE = ("all histories of acceptance outcomes up to a depth x radius options x configurations on the real optimizer, and the complete lattice of "
        "arguments of the update rule; non-trivial: at least one iteration (runs) or a change or clipping of the radius (rule)")
ASSUMPTIONS = ["numba runs in interpreted mode", "regions are compared with a relative tolerance of 1e-9"]


def run(cfg):
    return run_case({**cfg, "tap": True}, [oracles.trust_region])


NO = {"disable_convergence": True}
RO = [
    {},
    {"initial_radius": 0.3, "max_radius": 0.5},
    {"initial_radius": 0.05, "min_radius": 0.02},
    {"shrinking_factor": 0.1, "expansion_factor": 3.0, "rho_increase": 0.7, "rho_decrease": 0.3},
    {"large_step": 0.95, "rho_increase": 0.6, "rho_decrease": 0.05},
    {"max_radius_to_step_ratio": 1.5},
    {"max_radius_to_step_ratio": 0.5, "min_radius": 0.03},
    {"initial_radius": 2.0, "max_radius": 1.0, "min_radius": 0.5},
]


def c_outcomes(tier):
    depth = 4 if tier == "quick" else 6
    syms = [2.0, 0.5, 0.2, 0.02, -1.0] if tier == "quick" else [2.0, 0.5, 0.2, 0.02, -1.0]
    for cfg in product_cfg(functype=["scalar"] if tier == "quick" else ["scalar", "least_squares"], bounds=[None, "jm"], opts1=[NO]):
        for acc in itertools.product(syms, repeat=depth):
            yield {**cfg, "acc": list(acc), "iters": depth + 1}


def c_options(tier):
    depth = 3 if tier == "quick" else 5
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"], base=["quad", "lin"], opts1=[{"radius_options": r} for r in RO[1:]], opts2=[NO]):
        for acc in itertools.product([2.0, 0.25, -1.0], repeat=depth):
            yield {**cfg, "acc": list(acc), "iters": depth + 1}


def c_faults(tier):
    for cfg in product_cfg(functype=FT, policy=["f", "up", "down"], bounds=[None, "lU"], opts1=[NO], opts2=[{}, {**LINE, **batch(4)}]):
        for dev in deviation_sets(12, ["E", "B", "W", "M"], 1):
            yield {**cfg, "dev": dev, "iters": 6}


def c_long(tier):
    """long monotone histories: growth to the maximum, shrinkage to the minimum"""
    for cfg in product_cfg(functype=FT, policy=["f", "up", "tie"], base=["lin", "quad", "flat"], bounds=[None, "nm", "Lf"], opts1=[NO],
                           opts2=[{"radius_options": r} for r in ({}, RO[1], RO[2], RO[6], {"max_radius": 0.4, "min_radius": 0.01})]):
        yield {**cfg, "iters": 25}
    for cfg in product_cfg(functype=FT, d=[1, 2, 3], base=["quad", "lin"], bounds=[None], opts1=[NO],
                           cfg1=[{"x0kind": k} for k in ("zero", "tiny", "huge", "mixed")]):
        d = cfg["d"]
        kind = cfg.pop("x0kind")
        cfg["x"] = {"zero": [0.0] * d, "tiny": [1e-8] * d, "huge": [1e6, -1e5, 3.0][:d], "mixed": [0.0, -3.0, 1e-3][:d]}[kind]
        yield {**cfg, "iters": 5}


def c_noisy(tier):
    na = {"rho_noise_n_draws": 3, "max_n_evals": 3}
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"], base=["quad", "lin"], jitter=[0.0, 0.2, 2.0], opts1=[{**NO, "noisy": True}],
                           opts2=[{"noise_adaptation_options": {**na, **k}} for k in
                                  ({}, {"low_rho": 100.0, "good_rho_threshold": 100.0}, {"min_share_high_rho": 0.0, "high_rho": -100.0})],
                           opts3=[{"acceptance_decider_options": {"n_max": 5, "n_min": 2}}]):
        yield {**cfg, "iters": 5}


# ---------------------------------------------------------------------------- the rule


def c_rule(tier):
    inf, nan = np.inf, np.nan
    rhos = [-inf, -1.0, 0.0, 0.05, 0.1, 0.10000001, 0.3, 0.5, 1.0, 50.0, inf, nan]
    radii = [1e-6, 1e-3, 0.1, 1.0, 700.0, 1e6]
    steps = [0.0, 0.2, 0.4999, 0.5, 1.0, 1.5]  # relative to the radius
    opts = [dict(zip(("rho_decrease", "rho_increase", "large_step", "shrinking_factor", "expansion_factor", "min_radius", "max_radius", "max_radius_to_step_ratio"), t))
            for t in itertools.product((0.1, 0.3), (0.1, 0.5), (0.5, 0.0), (0.5,), (2.0, 1.0), (1e-6, 0.05), (1e6, 2.0), (inf, 3.0, 0.1))]
    # the maximum derived from the step length falls below the minimum
    opts += [{"rho_decrease": 0.1, "rho_increase": 0.1, "large_step": 0.5, "shrinking_factor": 0.25, "expansion_factor": 4.0, "min_radius": 0.5, "max_radius": 1.0,
              "max_radius_to_step_ratio": r} for r in (inf, 1.0, 1e-3)]
    for o in opts:
        for inc in (False, True):
            yield {"options": o, "inc": inc, "rhos": rhos, "radii": radii, "steps": steps}


def r_rule(case):
    adjust_radius = need("tranquilo.adjust_radius", "adjust_radius")
    RadiusOptions = need("tranquilo.options", "RadiusOptions")
    o = case["options"]
    opts = RadiusOptions(initial_radius=1.0, **o)
    viol, n, changed = [], 0, 0
    seen = set()
    for r, rho, st in itertools.product(case["radii"], case["rhos"], case["steps"]):
        step = r * st
        with np.errstate(all="ignore"):
            got = adjust_radius(radius=r, rho=rho, step_length=step, options=opts, n_evals_is_increased=case["inc"])
            want = oracles.radius_rule(r, rho, step, o, case["inc"])
        n += 1
        changed += want != r
        seen.add(round(float(want) / r, 6))
        if not oracles.close(got, want, 1e-12) and abs(got - want) > 1e-12 * abs(want):
            viol.append(f"radius {r}, rho {rho}, step {step}, increased {case['inc']}, options {o}: {got} instead of {want}")
    return Res(viol[:3], nontrivial=changed > 0, outcome=tuple(sorted(seen)), extra={"rule_evaluations": n})


SUBS = [
    Sub("rule", c_rule, r_rule, what="update rule: radius x rho x step x all option combinations, against an independent reference"),
    Sub("outcomes", c_outcomes, run, what="every sequence of improvement ratios up to the depth"),
    Sub("options", c_options, run, what="radius options x outcome sequences x function types x bounds"),
    Sub("faults", c_faults, run, what="single deviating answers x policies x line search"),
    Sub("long", c_long, run, what="long monotone histories and unusual start points"),
    Sub("noisy", c_noisy, run, what="noisy runs in which the number of evaluations changes"),
]
