"""P15: samples consist of the right points and are recorded correctly."""
import itertools

import numpy as np

from mc import oracles
from mc.core import Res, Sub, need
from mc.driver import deviation_sets
from mc.runs import FT, LINE, batch, product_cfg, run_case

LEVEL = "model_checking"
RULE = ("configurations x answer sequences on the real optimizer (bookkeeping of every iteration), and all point sets on a lattice for the filters; "
        "non-trivial: at least one iteration / at least one point dropped")
ASSUMPTIONS = ["numba runs in interpreted mode"]
NO = {"disable_convergence": True}


def run(cfg):
    return run_case({**cfg, "tap": True}, [oracles.samples])


STAG = [
    {},
    {"min_relative_step_keep": 0.9, "min_relative_step": 0.8},
    {"min_relative_step_keep": 5.0},
    {"min_relative_step": 5.0, "max_trials": 3},
    {"min_relative_step": 5.0, "max_trials": 2, "sample_increment": 2},
    {"min_relative_step": 5.0, "drop": False, "max_trials": 2},
]


def c_config(tier):
    for cfg in product_cfg(functype=FT, bounds=[None, "nm", "lL"], base=["quad", "sin"], opts0=[NO],
                           opts1=[{"sample_filter": f} for f in ("keep_all", "drop_excess", "discard_all", "clustering")],
                           opts2=[{"stagnation_options": s} for s in STAG], opts3=[{}, {**LINE, **batch(3)}]):
        yield {**cfg, "iters": 6}
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"], opts0=[NO], opts1=[{"sample_size": n} for n in (3, 5, 8, 12)],
                           opts2=[{"search_radius_factor": f} for f in (1.0, 2.0, 20.0)], opts3=[{}, {"stagnation_options": STAG[2]}]):
        if cfg["functype"] == "scalar" or cfg["opts"]["sample_size"] < 12:
            yield {**cfg, "iters": 6}
    for cfg in product_cfg(functype=FT, d=[1, 2, 3], bounds=[None], opts0=[NO], opts1=[{"sampler": s} for s in ("random_hull", "random_interior", "optimal_hull")],
                           opts2=[batch(b) for b in (1, 2, 5)]):
        yield {**cfg, "iters": 8}


def c_answers(tier):
    for cfg in product_cfg(functype=FT, policy=["f", "up", "down"], bounds=[None, "nm"], opts1=[NO], opts2=[{}, {"stagnation_options": STAG[1]}, {**LINE, **batch(4)}]):
        for dev in deviation_sets(12, ["E", "B", "W"], 1):
            yield {**cfg, "dev": dev, "iters": 6}
    depth = 4 if tier == "quick" else 6
    for ft in ("scalar", "least_squares"):
        for stag in STAG[:3]:
            for acc in itertools.product([2.0, 0.5, -1.0], repeat=depth):
                yield {"functype": ft, "acc": list(acc), "iters": depth + 1, "opts": {**NO, "stagnation_options": stag}}


def c_long(tier):
    for cfg in product_cfg(functype=FT, policy=["f", "up"], base=["sin", "quad", "rosen"], bounds=[None, "nm"], opts1=[NO],
                           opts2=[{}, {"sample_filter": "drop_excess"}, {"sample_filter": "drop_excess", "sample_filter_options": {"n_max_factor": 1}},
                                  {"sample_filter": "drop_excess", "sample_filter_options": {"n_max_factor": 2}, **LINE, **batch(4)}]):
        yield {**cfg, "iters": 15 if tier == "quick" else 30}


# ---------------------------------------------------------------------------- filters


class _State:
    pass


def _state(x, index, radius):
    Region = need("tranquilo.region", "Region")
    s = _State()
    s.x = np.array(x, float)
    s.index = index
    s.trustregion = Region(center=s.x, radius=radius)
    return s


def ref_drop(xs, ids, x, cur, radius, n):
    """All results that the documented rule allows (ties are broken arbitrarily)."""
    pts = frozenset(range(len(xs)))
    level = {pts}
    for _ in range(n):
        nxt = set()
        for s in level:
            lst = sorted(s)
            d = {i: np.linalg.norm(xs[i] - x) for i in lst}
            far = [i for i in lst if d[i] > radius]
            if far:
                m = max(d[i] for i in lst)
                nxt.update(s - {i} for i in lst if d[i] >= m * (1 - 1e-12))
                continue
            pairs = {(i, j): np.linalg.norm(xs[i] - xs[j]) for i, j in itertools.combinations(lst, 2)}
            m = min(pairs.values())
            for (i, j), dist in pairs.items():
                if dist <= m * (1 + 1e-12) + 1e-15:
                    if ids[i] == cur:
                        nxt.add(s - {j})
                    elif ids[j] == cur:
                        nxt.add(s - {i})
                    else:
                        if d[i] <= d[j] * (1 + 1e-12):
                            nxt.add(s - {i})
                        if d[j] <= d[i] * (1 + 1e-12):
                            nxt.add(s - {j})
        level = nxt
    return level


def c_drop(tier):
    """all sets of points on a lattice, every current point, every number to drop"""
    grid1 = [[v] for v in (-3.0, -1.2, -0.5, 0.0, 0.4, 1.0, 2.0)]
    grid2 = [[0.0, 0.0], [1.0, 0.0], [0.3, 0.4], [-0.6, 0.1], [0.0, -0.9], [2.0, 1.0], [-1.5, 0.0], [1.0, 0.05]]
    n_max = 4 if tier == "quick" else 5
    for grid in (grid1, grid2):
        for n in range(2, n_max + 1):
            for pts in itertools.combinations(range(len(grid)), n):
                xs = [grid[p] for p in pts]
                for cur in range(n):
                    yield {"xs": xs, "cur": cur, "radius": 1.0, "perm": 0}
        # duplicates and other orders
        for n in (3, 4):
            for pts in itertools.product(range(0, len(grid), 2), repeat=n):
                yield {"xs": [grid[p] for p in pts], "cur": 0, "radius": 1.0, "perm": 1}


def r_drop(case):
    drop = need("tranquilo.filter_points", "drop_worst_points")
    xs = np.array(case["xs"], float)
    n = len(xs)
    ids = np.arange(n) * 3 + 5
    if case["perm"]:
        ids = ids[::-1].copy()
    cur = int(ids[case["cur"]])
    st = _state(xs[case["cur"]], cur, case["radius"])
    viol, outs = [], []
    for k in range(0, n):
        xs_in, ids_in = xs.copy(), ids.copy()
        gx, gi = drop(xs_in, ids_in, st, k)
        if not np.array_equal(xs_in, xs) or not np.array_equal(ids_in, ids):
            viol.append("inputs were modified")
        gi = np.asarray(gi).astype(int)
        tag = f"dropping {k} of {xs.tolist()} around {xs[case['cur']].tolist()}: "
        if len(gi) != n - k or len(gx) != n - k:
            viol.append(tag + f"returned {len(gi)} points")
            continue
        pos = {int(v): i for i, v in enumerate(ids)}
        if any(int(v) not in pos for v in gi) or len(set(gi.tolist())) != len(gi):
            viol.append(tag + "indices are not a subset")
            continue
        if not np.array_equal(np.asarray(gx), xs[[pos[int(v)] for v in gi]]):
            viol.append(tag + "points and indices are not aligned")
        if cur not in gi:
            viol.append(tag + "dropped the current point")
        got = frozenset(pos[int(v)] for v in gi)
        if got not in ref_drop(xs, ids, st.x, cur, case["radius"], k):
            viol.append(tag + f"kept {sorted(got)}, which the rule does not allow")
        outs.append(tuple(sorted(got)))
    return Res(viol[:3], outcome=tuple(outs))


def c_excess(tier):
    for n in range(1, 9):
        for target in (1, 2, 3):
            for fac in (0.5, 1, 2, 3):
                for grid in (0, 1):
                    yield {"n": n, "target": target, "factor": fac, "grid": grid}


def r_excess(case):
    get = need("tranquilo.filter_points", "get_sample_filter")
    n, viol = case["n"], []
    xs = np.array([[0.3 * i, (0.7 * i) % 1.1] for i in range(n)]) * (1.0 if case["grid"] else 0.2)
    ids = np.arange(n) + 2
    outs = []
    for cur in range(n):
        st = _state(xs[cur], int(ids[cur]), 1.0)
        for name in ("drop_excess", "keep_all", "discard_all", "clustering"):
            f = get(name, {"n_max_factor": case["factor"]} if name == "drop_excess" else None)
            gx, gi = f(xs=xs.copy(), indices=ids.copy(), state=st, target_size=case["target"], history=None, n_evals_per_point=1)
            gx, gi = np.asarray(gx), np.asarray(gi).astype(int)
            tag = f"{name} n={n} target={case['target']} factor={case['factor']}: "
            pos = {int(v): i for i, v in enumerate(ids)}
            if len(gx) != len(gi) or any(int(v) not in pos for v in gi) or len(set(gi.tolist())) != len(gi):
                viol.append(tag + "no aligned subset")
                continue
            if not np.array_equal(gx, xs[[pos[int(v)] for v in gi]]):
                viol.append(tag + "points and indices are not aligned")
            fac = case["factor"]
            if name == "drop_excess":
                # the option has an integer type
                want = min(n, int(np.floor(case["target"] * int(fac))))
                if want >= 1 and len(gi) != want:
                    viol.append(tag + f"kept {len(gi)} instead of {want}")
                if want >= 1 and int(ids[cur]) not in gi:
                    viol.append(tag + "dropped the current point")
            elif name == "keep_all" and len(gi) != n:
                viol.append(tag + "did not keep all points")
            elif name == "discard_all" and gi.tolist() != [int(ids[cur])]:
                viol.append(tag + "did not keep exactly the current point")
            outs.append(len(gi))
    return Res(viol[:3], outcome=tuple(outs))


SUBS = [
    Sub("drop", c_drop, r_drop, what="dropping points: all point sets on lattices up to 4 (5) points x current point x number to drop, against all results the rule allows"),
    Sub("filters", c_excess, r_excess, what="built-in filters: sizes and alignment"),
    Sub("config", c_config, run, what="filters x stagnation options x samplers x batch sizes x sample sizes on full runs"),
    Sub("answers", c_answers, run, what="answer sequences with a deviation, outcome sequences"),
    Sub("long", c_long, run, what="long runs with many reusable points"),
]
