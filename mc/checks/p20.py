"""P20: linear trust region subproblems."""
import itertools

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of gradient/bound/radius/center lattices on the real solvers, against the exact minimizer from the optimality conditions"
RULE = "one case = one gradient pattern with all bounds, radii and centers; non-trivial: at least one bound is active at the solution or the gradient is not zero"
ASSUMPTIONS = ["objective values within 1e-7 of the exact optimum count as optimal", "the solvers treat values below 1e-14 as zero"]
INF = np.inf


def exact(g, lo, hi, r):
    """Minimum of g'x over lo <= x <= hi, ||x|| <= r with lo <= 0 <= hi (bisection on the multiplier)."""
    g, lo, hi = (np.asarray(v, float) for v in (g, lo, hi))
    nz = g != 0
    if not nz.any():
        return 0.0
    corner = np.where(g > 0, lo, np.where(g < 0, hi, 0.0))
    if np.linalg.norm(corner) <= r:
        return float(g[nz] @ corner[nz])
    g1 = g / np.abs(g).max()

    def x(lam):
        return np.where(nz, np.clip(-g1 / lam, lo, hi), 0.0)

    a, b = 1e-18, 1.0
    while np.linalg.norm(x(b)) > r:
        b *= 2
    while np.linalg.norm(x(a)) < r and a > 1e-280:
        a /= 16
    for _ in range(110):
        m = np.sqrt(a * b)
        if np.linalg.norm(x(m)) > r:
            a = m
        else:
            b = m
    return float(g @ x(b))


BOUNDS = {"z": (0.0, 0.0), "t": (-0.3, 0.2), "u": (-0.6, 0.9), "l": (0.0, 5.0), "r": (-5.0, 0.0), "-": (-INF, INF), "w": (-0.05, INF), "v": (-INF, 0.4), "b": (-100.0, 100.0)}
VALS = [-3.0, -1.0, -1e-3, 0.0, 1e-3, 1.0, 7.0]


def c_min(tier):
    for d in (1, 2, 3):
        vals = VALS if d < 3 else [-3.0, -1e-3, 0.0, 1.0, 7.0]
        scales = (1.0, 1e-8, 1e6) if d < 3 else (1.0,) if tier == "quick" else (1.0, 1e5)
        for g in itertools.product(vals, repeat=d):
            for s in scales:
                yield {"g": [v * s for v in g], "pats": "ztulr-wvb" if d < 3 or tier != "quick" else "ztl-wv"}
    if True:
        for g in itertools.product([-1.0, 0.5, 2.0], repeat=4):
            yield {"g": list(g), "pats": "tl-" if tier == "quick" else "ztl-w"}


def feasible(x, lo, hi, r, rel=1e-12):
    x = np.asarray(x, float)
    return np.isfinite(x).all() and (x >= lo - 1e-13).all() and (x <= hi + 1e-13).all() and np.linalg.norm(x) <= r * (1 + rel) + 2e-14


def r_min(case):
    f = need("tranquilo.subsolvers.linear_subsolvers", "minimize_trsbox_linear")
    LM = need("tranquilo.subsolvers.linear_subsolvers", "LinearModel")
    g = np.array(case["g"])
    d = len(g)
    viol, states, k, act = [], [], 0, 0
    for pats in itertools.product(case["pats"], repeat=d):
        lo = np.array([BOUNDS[p][0] for p in pats])
        hi = np.array([BOUNDS[p][1] for p in pats])
        for r in (1.0, 0.1, 3.0):
            g_in, lo_in, hi_in = g.copy(), lo.copy(), hi.copy()
            ctx = f"g={g.tolist()} bounds={''.join(pats)} radius={r}"
            x = f(LM(intercept=1.0, linear_terms=g_in), lo_in, hi_in, r)
            k += 1
            states.append(h64(case["g"], pats, r))
            if not (np.array_equal(g_in, g) and np.array_equal(lo_in, lo) and np.array_equal(hi_in, hi)):
                viol.append(f"{ctx}: the arguments are modified")
            if np.shape(x) != (d,) or not feasible(x, lo, hi, r):
                viol.append(f"{ctx}: {x} is not feasible")
                continue
            want = exact(g, lo, hi, r)
            size = np.linalg.norm(g) * min(r, 1e3)
            act += bool((np.isclose(x, lo) | np.isclose(x, hi)).any())
            if not float(g @ x) <= want + 1e-7 * abs(want) + 1e-12 * size + 1e-13:
                viol.append(f"{ctx}: {x.tolist()} has value {g @ x}, the minimum is {want}")
        if len(viol) > 3:
            break
    return Res(viol[:3], nontrivial=bool(g.any()), outcome=h64(case["g"]), states=states, transitions=k, extra={"with_active_bounds": act}, sample=case)


def c_geo(tier):
    for d in (1, 2, 3):
        vals = [-2.0, 0.0, 1e-2, 1.0] if d < 3 else [-1.0, 0.0, 2.0]
        for g in itertools.product(vals, repeat=d):
            for c in (-5.0, -0.1, 0.0, 0.1, 5.0) if d < 3 or tier != "quick" else (-0.1, 0.0, 5.0):
                yield {"g": list(g), "c": c, "pats": "ztulr-wv" if d < 3 else "tl-w"}


def r_geo(case):
    f = need("tranquilo.subsolvers.linear_subsolvers", "improve_geomtery_trsbox_linear")
    LM = need("tranquilo.subsolvers.linear_subsolvers", "LinearModel")
    g, c = np.array(case["g"]), case["c"]
    d = len(g)
    viol, states, k = [], [], 0
    for pats in itertools.product(case["pats"], repeat=d):
        for center in ([0.0] * d, [1.5, -40.0, 0.1][:d]):
            cen = np.array(center)
            lo = np.array([BOUNDS[p][0] for p in pats]) + cen
            hi = np.array([BOUNDS[p][1] for p in pats]) + cen
            for r in (1.0, 0.1):
                args = [cen.copy(), g.copy(), lo.copy(), hi.copy()]
                ctx = f"g={g.tolist()} c={c} bounds={''.join(pats)} center={center} radius={r}"
                x = f(args[0], LM(intercept=c, linear_terms=args[1]), args[2], args[3], r)
                k += 1
                states.append(h64(case["g"], c, pats, center, r))
                if not all(np.array_equal(a, b) for a, b in zip(args, (cen, g, lo, hi))):
                    viol.append(f"{ctx}: the arguments are modified")
                if np.shape(x) != (d,) or not (np.isfinite(x).all() and (x >= lo - 1e-12).all() and (x <= hi + 1e-12).all() and np.linalg.norm(x - cen) <= r * (1 + 1e-10)):
                    viol.append(f"{ctx}: {x} is not feasible")
                    continue
                lo_v, hi_v = exact(g, lo - cen, hi - cen, r), -exact(-g, lo - cen, hi - cen, r)
                want = max(abs(c + lo_v), abs(c + hi_v))
                got = abs(c + g @ (x - cen))
                if got < want - 1e-7 * (1 + want):
                    viol.append(f"{ctx}: |L| is {got}, the maximum is {want}")
        # infeasible centers are rejected
        for j in range(d):
            for side in (-1, 1):
                for eps in (1e-6, 1.0):
                    lo, hi = np.full(d, -2.0), np.full(d, 2.0)
                    cen = np.zeros(d)
                    cen[j] = side * (2.0 + eps)
                    try:
                        f(cen, LM(intercept=c, linear_terms=g.copy()), lo, hi, 1.0)
                        viol.append(f"center {cen.tolist()} outside of [-2, 2] is accepted")
                    except ValueError:
                        pass
                    k += 1
        if len(viol) > 3:
            break
    return Res(viol[:3], nontrivial=bool(g.any()), outcome=h64(case["g"], c > 0), states=states, transitions=k, sample=case)


SUBS = [
    Sub("minimize", c_min, r_min, what="all gradients x bound patterns x radii"),
    Sub("geometry", c_geo, r_geo, what="all Lagrange polynomials x bound patterns x centers x radii"),
]
