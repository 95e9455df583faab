"""P23: compiled, interpreted and reference subproblem solvers agree."""
import itertools
import warnings

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64
from mc.interp import call, interpreted

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of model/start/option lattices, executed by the reference, the compiled and the interpreted implementation (differential, on the real code)"
RULE = "one case = one gradient, start point and option set with a complete lattice of Hessians; non-trivial: some solution differs from the start"
ASSUMPTIONS = [
    "solutions are compared by the criterion value (1e-8 relative), the success flag and, for strictly convex models, the parameters (1e-5)",
    "where a change of the model by 1e-9 changes the solution of the reference, both outcomes are accepted (ties between symmetric solutions are decided by rounding errors)",
]

BN = {"conjugate_gradient_method": "cg", "maxiter": 20, "maxiter_gradient_descent": 5, "gtol_abs": 1e-8, "gtol_rel": 1e-8, "gtol_scaled": 0.0, "gtol_abs_conjugate_gradient": 1e-8, "gtol_rel_conjugate_gradient": 1e-6}
HS = {
    0: ([-2.0, -0.5, 0.0, 1e-6, 1.0, 30.0], [-1.0, 0.0, 0.5]),
    1: ([-2.0, 0.0, 1.0, 30.0], [-1.0, 0.0, 0.5]),
    2: ([-2.0, 0.0, 1.0], [0.0, 0.5]),
    3: ([-2.0, 1.0], [0.0, 0.5]),
}


def warmup(tier):
    """Compile once; the workers inherit the compiled code."""
    warnings.simplefilter("ignore")
    g, h = np.array([1.0, -1.0]), np.eye(2)
    call("gqtpar_fast", g, h, {"x_candidate": [0.0, 0.0]})
    call("gqtpar_fast", 0 * g, -h, {"x_candidate": [0.0, 0.0]})
    call("bntr_fast", g, h, {"lower_bounds": [-1.0, -1.0], "upper_bounds": [1.0, 1.0], "x_candidate": [0.0, 0.0], **BN})
    call("cg_fast", g, h, {"trustregion_radius": 1.0, "gtol_abs": 1e-8, "gtol_rel": 1e-6})
    call("steihaug_toint_fast", g, h, {"trustregion_radius": 1.0})
    call("trsbox_fast", g, h, {"trustregion_radius": 1.0, "lower_bounds": [-1.0, -1.0], "upper_bounds": [1.0, 1.0]})


def val(g, h, x):
    return float(g @ x + 0.5 * x @ h @ x)


def same(a, b, g, h):
    """Do two results agree? None or a description of the difference."""
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else f"{a} and {b}"
    mag = np.abs(g).sum() + np.abs(h).sum()
    va, vb = val(g, h, a[0]), val(g, h, b[0])
    if not abs(va - vb) <= 1e-8 * mag:
        return f"values {va} and {vb}"
    if a[2] != b[2]:
        return f"success {a[2]} and {b[2]}"
    if np.linalg.eigvalsh(h)[0] > 0.1 and np.abs(a[0] - b[0]).max() > 1e-3:
        return f"solutions {a[0]} and {b[0]} of a strictly convex problem"
    return None


def tie(name, g, h, kw, other):
    """Is the result of the reference unstable such that `other` is one of its outcomes?"""
    d = len(g)
    for e in (1e-9, -1e-9, 1e-7, -1e-7):
        for k in range(2 * d):
            g2, h2 = g.copy(), h.copy()
            if k < d:
                g2[k] += e * (1 + abs(g[k]))
            else:
                h2[k - d, k - d] += e * (1 + abs(h[k - d, k - d]))
            r = call(name, g2, h2, kw)
            if isinstance(r, str) or isinstance(other, str):
                if r == other:
                    return True
            elif abs(val(g, h, r[0]) - val(g, h, other[0])) <= 1e-5 * (np.abs(g).sum() + np.abs(h).sum()) and r[2] == other[2]:
                return True
    return False


def run(case):
    warnings.simplefilter("ignore")
    ref, fast = case["ref"], case["ref"] + "_fast"
    g = np.array(case["g"], float)
    d = len(g)
    kw, kwf = dict(case["kw"]), dict(case["kw"])
    if ref == "cg":
        kwf = {"gtol_abs": 1e-8, "gtol_rel": 1e-6, **kw}
    hs = [h * case.get("s", 1.0) for h in geo.hess_lattice(d, *HS[case["hs"]])]
    viol, states, ties, moved = [], [], 0, False
    inter = interpreted([(fast, g, h, kwf) for h in hs]) if case["interp"] else [None] * len(hs)
    for h, it in zip(hs, inter):
        a = call(ref, g, h, kw)
        b = call(fast, g, h, kwf)
        ctx = f"{ref} g={g.tolist()} h={h.tolist()} {kw}"
        states.append(h64(ref, case["g"], case.get("s"), h.tolist(), str(kw)))
        for what, x in (("compiled", b), ("interpreted", it)):
            if x is None:
                continue
            diff = same(a, x, g, h)
            if diff:
                if tie(ref, g, h, kw, x):
                    ties += 1
                else:
                    viol.append(f"reference and {what} solver disagree: {diff} ({ctx})")
        for what, x in (("reference", a), ("compiled", b)):
            if not isinstance(x, str):
                if not np.isfinite(x[0]).all():
                    viol.append(f"{what} solver returns {x[0]} ({ctx})")
                elif x[1] is not None and not abs(x[1] - val(g, h, x[0])) <= 1e-9 * (np.abs(g).sum() + np.abs(h).sum()) * max(1.0, float(x[0] @ x[0])):
                    viol.append(f"criterion {x[1]} of the {what} solver does not belong to its solution with value {val(g, h, x[0])} ({ctx})")
        if not isinstance(a, str) and np.abs(a[0]).max() > 0:
            moved = True
        if len(viol) > 10:
            break
    return Res(viol, moved, f"{ref} {d} ties {min(ties, 3)}", states, 2 * len(hs) + (len(hs) if case["interp"] else 0), {"solver pairs compared": len(hs), "ties": ties})


def grads(d, tier):
    q = tier == "quick"
    return itertools.product({1: [-3.0, -1e-3, 0.0, 1e-18, 1.0], 2: [-3.0, -1e-3, 0.0, 1.0], 3: [-3.0, 0.0, 1.0] if q else [-3.0, -1e-3, 0.0, 1.0], 4: [-3.0, 0.0] if q else [-3.0, 0.0, 1.0]}[d], repeat=d)


def c_sphere(tier):
    q = tier == "quick"
    for d in (1, 2, 3, 4):
        for g in grads(d, tier):
            hs = {1: 0, 2: 0, 3: 1 if not q else 2, 4: 3}[d]
            kw = {"x_candidate": [0.0] * d, "maxiter": 20}
            for s in (1.0, 1e-6, 1e6) if d < 3 else (1.0,):
                yield {"ref": "gqtpar", "g": [v * s for v in g], "s": s, "hs": hs, "kw": kw, "interp": d < 3}
            if d < 4:
                for o in ({"maxiter": 1}, {"maxiter": 3}, {"k_easy": 0.01, "k_hard": 0.02}):
                    yield {"ref": "gqtpar", "g": list(g), "hs": min(3, hs + 1), "kw": {**kw, **o}, "interp": False}


def c_cube(tier):
    q = tier == "quick"
    for d in (1, 2, 3):
        starts = {1: [[0.0], [-1.0], [0.2]], 2: [[0.0, 0.0], [-1.0, -1.0], [0.2, 1.0], [-0.7, 0.3]], 3: [[0.0, 0.0, 0.0], [-1.0, 0.2, 1.0]]}[d]
        base = {"lower_bounds": [-1.0] * d, "upper_bounds": [1.0] * d, **BN}
        for g in grads(d, tier):
            for k, x0 in enumerate(starts):
                for meth in ("cg", "steihaug_toint", "trsbox"):
                    hs = (0 if d < 3 else 2) if meth == "cg" else (1 if d < 3 else 3)
                    if not q:
                        hs = max(0, hs - 1)
                    yield {"ref": "bntr", "g": list(g), "hs": hs, "kw": {**base, "x_candidate": x0, "conjugate_gradient_method": meth}, "interp": d < 3 and k < 2}
                if d < 3:
                    for o in ({"maxiter": 0}, {"maxiter": 1}, {"maxiter": 3}, {"maxiter_gradient_descent": 1}, {"gtol_scaled": 0.5}, {"gtol_rel": 0.1}, {"gtol_abs": 1.0}, {"gtol_rel_conjugate_gradient": 0.5}):
                        yield {"ref": "bntr", "g": list(g), "hs": 2, "kw": {**base, "x_candidate": x0, **o}, "interp": False}
            if d == 2:
                for lo, hi in (([-1.0, 0.2], [1.0, 0.2]), ([-5.0, -0.1], [0.3, 0.0])):
                    yield {"ref": "bntr", "g": list(g), "hs": 1, "kw": {**base, "lower_bounds": lo, "upper_bounds": hi, "x_candidate": [0.3, hi[1]]}, "interp": False}


def c_cg(tier):
    for d in (1, 2, 3):
        for g in grads(d, tier):
            for r in (1e-4, 0.5, 1.0, 100.0):
                hs = 0 if d < 3 else 2 if tier == "quick" else 1
                if any(g):
                    yield {"ref": "cg", "g": list(g), "hs": hs, "kw": {"trustregion_radius": r}, "interp": r == 1.0 and d < 3}
                    yield {"ref": "steihaug_toint", "g": list(g), "hs": hs, "kw": {"trustregion_radius": r}, "interp": r == 1.0 and d < 3}
                for lo, hi in ((-1.0, 1.0), (-0.2, 0.6)):
                    yield {"ref": "trsbox", "g": list(g), "hs": hs, "kw": {"trustregion_radius": r, "lower_bounds": [lo] * d, "upper_bounds": [hi] * d}, "interp": r == 1.0 and d < 3}


SUBS = [
    Sub("sphere", c_sphere, run, timeout=300, chunk=1, what="gqtpar and gqtpar_fast, scales, iteration limits and stopping criteria"),
    Sub("cube", c_cube, run, timeout=300, chunk=1, what="bntr and bntr_fast from interior and boundary start points, all conjugate gradient methods, all options"),
    Sub("cg", c_cg, run, timeout=300, chunk=1, what="the conjugate gradient solvers and their compiled versions"),
]
