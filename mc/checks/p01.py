"""P01: bounds are never violated."""
import itertools

from mc import oracles
from mc.core import Sub
from mc.driver import deviation_sets
from mc.runs import FT, LINE, batch, product_cfg, run_case

LEVEL = "model_checking"
RULE = ("complete enumeration of run configurations (bound pattern per coordinate x function type x base function x components) and of "
        "answer sequences with a bounded number of deviations; a run is non-trivial if it made at least one iteration")
ASSUMPTIONS = ["the start point is feasible and lower < upper in every coordinate", "the start evaluation succeeds", "numba runs in interpreted mode"]

LETTERS = "-flunLUjm"


def run(cfg):
    return run_case(cfg, [oracles.feasibility])


def c_patterns(tier):
    dims = (1, 2) if tier == "quick" else (1, 2, 3)
    for d in dims:
        for pat in itertools.product(LETTERS, repeat=d):
            pat = "".join(pat)
            if set(pat) == {"-"}:
                continue
            for ft in FT:
                for base in ("quad", "lin"):
                    yield {"d": d, "bounds": pat, "functype": ft, "base": base, "iters": 7 if d < 3 else 5}
    # only one of the two arrays is passed
    for d in (1, 2):
        for pat in itertools.product(LETTERS[1:], repeat=d):
            for side in "<>":
                for ft in FT:
                    yield {"d": d, "bounds": "".join(pat) + side, "functype": ft, "base": "lin", "iters": 6}


PATS = ["nn", "l-", "Lu", "jm", "fl", "-n"]


def c_components(tier):
    samplers = [{"sampler": s} for s in ("optimal_hull", "random_hull", "random_interior")]
    filters = [{"sample_filter": f} for f in ("keep_all", "drop_excess", "discard_all", "clustering")]
    accept = [{}, {**LINE, **batch(2)}, {**LINE, **batch(4)}, {**LINE, **batch(6)}, batch(3)]
    pats = PATS[:3] if tier == "quick" else PATS
    for cfg in product_cfg(functype=FT, bounds=pats, base=["lin", "sin"], iters=[6], opts1=samplers, opts2=filters, opts3=accept):
        yield cfg


def c_subsolvers(tier):
    solvers = [{"cube_subsolver": s} for s in ("bntr", "bntr_fast", "fallback_cube", "fallback_multistart")]
    cg = [{"subsolver_options": {"conjugate_gradient_method": m}} for m in ("cg", "steihaug_toint", "trsbox")]
    for cfg in product_cfg(functype=FT, bounds=PATS, base=["lin", "quad"], iters=[5], opts1=solvers[:2], opts2=cg):
        yield cfg
    for cfg in product_cfg(functype=FT, bounds=PATS, base=["lin"], iters=[4], opts1=solvers[2:]):
        yield cfg
    # user supplied solvers that leave the unit region or fail
    for cfg in product_cfg(functype=FT, bounds=PATS, base=["lin", "quad"], iters=[4],
                           cfg1=[{"bad_solver": b} for b in ("far", "raise", "nan", "corner")]):
        yield cfg


def c_faults(tier):
    k2 = tier != "quick"
    pol = [{"policy": p, "bounds": b} for b in ("nn", "lU", "jm") for p in ("f", "down") if k2 or (p == "f") == (b != "lU")]
    for cfg in product_cfg(functype=FT, cfg2=pol, cfg1=[{}, {"opts": {**LINE, **batch(4)}}]):
        for dev in deviation_sets(12 if k2 else 10, ["E", "I", "M", "W", "B"] if k2 else ["E", "M", "W"], 1):
            yield {**cfg, "dev": dev, "iters": 6}
        if k2:
            for dev in deviation_sets(10, ["E", "M", "B"], 2):
                if len(dev) == 2:
                    yield {**cfg, "dev": dev, "iters": 6}


def c_accept(tier):
    """all sequences of outcomes of the acceptance step (region moves, grows, shrinks)"""
    depth = 4 if tier == "quick" else 6
    kinds = [{"functype": f, "base": b} for f in ("scalar", "least_squares") for b in ("lin", "quad") if tier != "quick" or (f == "scalar") == (b == "lin")]
    for cfg in product_cfg(cfg1=kinds, bounds=["nm", "lj", "Lm"]):
        for acc in itertools.product([2.0, 0.05, -1.0], repeat=depth):
            yield {**cfg, "acc": list(acc), "iters": depth, "tap": True}


def c_noisy(tier):
    pats = PATS if tier != "quick" else PATS[:4]
    for cfg in product_cfg(functype=FT, bounds=pats, base=["lin", "sin"], iters=[4], cfg1=[{"jitter": 0.0}, {"jitter": 0.3}],
                           opts=[{"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 3}, "acceptance_decider_options": {"n_max": 6}},
                                 {"noisy": True, "acceptance_decider": "naive_noisy", "noise_adaptation_options": {"rho_noise_n_draws": 3}}]):
        yield cfg


def c_corner(tier):
    """Every start position on a grid over a small box, including corners and near-corner starts."""
    import numpy as np

    grid = [0.0, 1e-12, 0.02, 0.5, 0.98, 1.0]
    for ft in FT:
        for base in ("lin", "quad"):
            for gx, gy in itertools.product(grid, repeat=2):
                yield {"functype": ft, "base": base, "x": [1.0 + 0.3 * gx, -2.0 + 0.6 * gy], "box": [[1.0, -2.0], [1.3, -1.4]], "iters": 6,
                       "opts": {"radius_options": {"initial_radius": 0.2}}}
    # badly scaled boxes: rounding at the bounds
    for ft in FT:
        for scale in (1e-6, 1e3, 1e8):
            for gx in (0.0, 0.3, 1.0):
                lo = np.array([1.1, -0.7]) * scale
                hi = lo + np.array([0.1, 0.3]) * scale
                x = lo + gx * (hi - lo)
                x = np.clip(x, lo, hi)
                yield {"functype": ft, "base": "lin", "x": x.tolist(), "box": [lo.tolist(), hi.tolist()], "iters": 6}


def c_speculative(tier):
    """Bounds shortly behind the border of the region, with line search and speculative points that leave the region."""
    gaps = [1.001, 1.05, 1.2, 1.5, 1.9] if tier == "quick" else [1.001, 1.02, 1.05, 1.1, 1.2, 1.3, 1.5, 1.7, 1.9, 2.5, 4.0]
    for d in (1, 2) if tier == "quick" else (1, 2, 3):
        for ft in FT:
            for base in ("lin", "quad"):
                for bs in (3, 5, 8) if tier == "quick" else (2, 3, 4, 5, 6, 8, 12):
                    for gap in gaps:
                        for sides in ("both", "lower", "upper"):
                            for seed in range(2 if tier == "quick" else 5):
                                r = 0.2
                                lo = [1.0 - (gap * r if sides != "upper" else 50.0)] * d
                                hi = [1.0 + (gap * r if sides != "lower" else 50.0)] * d
                                yield {"functype": ft, "base": base, "d": d, "x": [1.0] * d, "box": [lo, hi], "iters": 3,
                                       "opts": {**LINE, **batch(bs), "seed": seed, "radius_options": {"initial_radius": r}}}


SUBS = [
    Sub("patterns", c_patterns, run, what="all bound patterns per coordinate (9 letters, dimensions 1-2, thorough 1-3), both or one array passed"),
    Sub("corners", c_corner, run, what="start positions on a grid over a box incl. corners; badly scaled boxes"),
    Sub("components", c_components, run, what="sampler x filter x acceptance rule x batch size x function type x pattern"),
    Sub("subsolvers", c_subsolvers, run, what="subproblem solvers incl. user supplied ones that leave the region or fail"),
    Sub("faults", c_faults, run, what="answer sequences with up to 1 (thorough 2) deviations"),
    Sub("acceptance", c_accept, run, what="all sequences of acceptance outcomes up to a depth"),
    Sub("speculative", c_speculative, run, what="bounds shortly behind the region x batch sizes of the line search x seeds"),
    Sub("noisy", c_noisy, run, what="noisy optimizations, both noisy acceptance rules"),
]
