"""P02: accepted values are true, never increase, and the best one is returned."""
import itertools

from mc import oracles
from mc.core import Sub
from mc.driver import deviation_sets
from mc.runs import FT, LINE, batch, product_cfg, run_case

LEVEL = "model_checking"
RULE = ("run configurations x sequences of criterion answers (a default policy and a bounded number of deviations from it, or every sequence of "
        "acceptance outcomes up to a depth); non-trivial: at least one iteration")
ASSUMPTIONS = ["noise-free optimizations", "the start evaluation succeeds", "numba runs in interpreted mode"]


def run(cfg):
    mi = (cfg.get("opts", {}).get("acceptance_decider_options") or {}).get("min_improvement", 0.0)
    return run_case({**cfg, "tap": True}, [lambda r: oracles.acceptance(r, mi)])


NO = {"disable_convergence": True}
ACC = [{}, {**LINE, **batch(1)}, {**LINE, **batch(2)}, {**LINE, **batch(3)}, {**LINE, **batch(4)}, {**LINE, **batch(7)}]


def c_single(tier):
    """one deviation from several default policies, everywhere"""
    alphabet = ["B", "T", "W", "E", "N", "I", "M"]
    pol = [{"policy": p, "bounds": b} for p in ("f", "down", "up", "tie") for b in (None, "nm")
           if tier != "quick" or (p, b) in (("f", None), ("f", "nm"), ("down", "nm"), ("up", None), ("tie", "nm"))]
    for cfg in product_cfg(functype=FT, cfg1=pol, opts1=[NO]):
        for dev in deviation_sets(13, alphabet, 1):
            yield {**cfg, "dev": dev, "iters": 6}


def c_pairs(tier):
    alphabet = ["B", "T", "E", "M"] if tier == "quick" else ["B", "T", "W", "E", "N", "M"]
    fts = ["scalar", "least_squares"] if tier == "quick" else FT
    for ft in fts:
        for policy in ("f", "up") if tier != "quick" else ("f",) if ft == "scalar" else ("up",):
            for dev in deviation_sets(12, alphabet, 2):
                if len(dev) == 2:
                    yield {"functype": ft, "policy": policy, "dev": dev, "iters": 6, "opts": NO}


def c_line(tier):
    """deviations inside the batches of line search and speculative points"""
    alphabet = ["B", "T", "W", "E", "M"]
    n = 16 if tier == "quick" else 24
    problems = [{"base": a, "bounds": b} for a in ("lin", "quad") for b in (None, "jm") if tier != "quick" or (a == "lin") == (b is None)]
    acc = ACC[1:] if tier != "quick" else [ACC[2], ACC[4], ACC[5]]
    for cfg in product_cfg(functype=FT, policy=["f", "up"], cfg1=problems, opts1=acc, opts2=[NO]):
        for dev in deviation_sets(n, alphabet, 1):
            yield {**cfg, "dev": dev, "iters": 4}
    fts = ["scalar"] if tier == "quick" else FT
    for cfg in product_cfg(functype=fts, policy=["up"], base=["lin"], opts1=[ACC[4]], opts2=[NO]):
        for dev in deviation_sets(n, ["B", "T", "E"], 2):
            if len(dev) == 2:
                yield {**cfg, "dev": dev, "iters": 4}


def c_outcomes(tier):
    """all sequences of acceptance outcomes: improvement in units of the expected one, ties, failures"""
    depth = 4 if tier == "quick" else 5
    syms = [1.0, 0.05, "T", -0.5, "E", "M"]
    kinds = [{"functype": f, "bounds": b} for f in FT for b in (None, "nm") if tier != "quick" or (f, b) in (("scalar", None), ("least_squares", "nm"))]
    for cfg in product_cfg(cfg1=kinds, opts1=[NO]):
        for acc in itertools.product(syms, repeat=depth):
            yield {**cfg, "acc": list(acc), "iters": depth}


def c_batch_outcomes(tier):
    """every assignment of outcomes to all points of one acceptance batch, after 0 or 1 earlier iterations"""
    syms = [1.0, 1.5, "T", -0.5, "E", "M"]
    for ft in FT:
        for bs, pre in ((2, 0), (3, 0), (2, 1), (3, 1)) + (((4, 0), (4, 1)) if tier != "quick" else ()):
            for acc in itertools.product(syms, repeat=bs):
                for first in (1.0, -0.5) if pre else (None,):
                    yield {"functype": ft, "acc": ([first] * bs if pre else []) + list(acc), "iters": 2 + pre, "opts": {**LINE, **batch(bs), **NO}}


def c_threshold(tier):
    """minimum improvement, including exact equality"""
    for ft in FT:
        for mi in (0.0, 0.5, 1e-3, 10.0, -0.25):
            for opts in ({}, {**LINE, **batch(3)}):
                n = 3 if tier != "quick" or (mi == 0.5 and not opts) else 2
                for acc in itertools.product([1.0, 0.01, "B", "T", "W", "E"], repeat=n):
                    yield {"functype": ft, "acc": list(acc), "iters": 3,
                           "opts": {**NO, **opts, "acceptance_decider_options": {"min_improvement": mi}}}


SUBS = [
    Sub("single", c_single, run, what="every single deviating answer in the first 13 evaluations x 4 default policies x function types x bounds"),
    Sub("outcomes", c_outcomes, run, what="every sequence of acceptance outcomes up to the depth"),
    Sub("batch_outcomes", c_batch_outcomes, run, what="every assignment of outcomes to the points of an acceptance batch"),
    Sub("threshold", c_threshold, run, what="minimum improvement options x outcome sequences"),
    Sub("line_search", c_line, run, what="deviations within batches with line search and speculative sampling, 5 batch sizes"),
    Sub("pairs", c_pairs, run, what="every pair of deviating answers"),
]
