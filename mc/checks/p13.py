"""P13: solutions of the trust region subproblem."""
import itertools

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of model/region/solver/failure lattices on the real solvers, against exact global minima"
RULE = "one case = one gradient, region and set of solvers with a complete lattice of Hessians; non-trivial: the exact minimum is below the value at the center for some Hessian"
ASSUMPTIONS = [
    "the sphere solvers gqtpar and gqtpar_fast reach at least 80 % of the largest possible decrease (their stopping criteria k_easy=0.1 and k_hard=0.2 allow 20 %)",
    "the cube solvers bntr and bntr_fast reach at least 90 % of the best decrease along the projected gradient path (models with gradients above gtol_abs)",
    "numba runs in interpreted mode here; P23 compares the compiled code with it",
]
SPHERE = ["gqtpar", "gqtpar_fast", "fallback_reparametrized", "fallback_inscribed_cube", "fallback_norm_constraint"]
CUBE = ["bntr", "bntr_fast", "fallback_cube"]


def _model(c, g, h, reg):
    SM = need("tranquilo.models", "ScalarModel")
    return SM(intercept=c, linear_terms=np.array(g, float), square_terms=np.array(h, float), shift=reg.effective_center, scale=reg.effective_radius)


def _solver(sphere, cube, retry=False, opts=None):
    return need("tranquilo.solve_subproblem", "get_subsolver")(sphere_solver=sphere, cube_solver=cube, retry_with_fallback=retry, user_options=opts)


def contract(spec, c, g, h, m, reg, res, ctx, viol):
    """In the region, honest, not worse than the center. Returns the decrease."""
    shape, ec, er = geo.ref_frame(spec)
    x = np.asarray(res.x, float)
    xu = np.asarray(res.x_unit, float)
    d = len(g)
    ctr = np.array(spec["center"], float)
    u0 = (ctr - ec) / er
    if x.shape != (d,) or xu.shape != (d,) or not np.isfinite(x).all() or not np.isfinite(xu).all():
        viol.append(f"solution is not a finite point: {x} ({ctx})")
        return None
    scale = np.abs(ctr).max() + er.max()
    if shape == "sphere":
        if np.linalg.norm(x - ctr) > er[0] * (1 + 1e-9) + 1e-13 * scale:
            viol.append(f"step of length {np.linalg.norm(x - ctr)} leaves the sphere of radius {er[0]} ({ctx})")
    else:
        if (np.abs(x - ec) > er * (1 + 1e-9) + 1e-13 * scale).any():
            viol.append(f"solution {x} outside of the cube around {ec} with radius {er} ({ctx})")
        lb, ub = spec.get("lb"), spec.get("ub")
        if (lb is not None and (x < np.array(lb)).any()) or (ub is not None and (x > np.array(ub)).any()):
            viol.append(f"solution {x} violates the bounds {lb} {ub} ({ctx})")
    if np.abs(x - (ec + er * xu)).max() > 1e-9 * scale:
        viol.append(f"x {x} does not correspond to x_unit {xu} ({ctx})")
    v0 = geo.poly(c, g, h, u0)[0]
    v1 = geo.poly(c, g, h, xu)[0]
    mag = abs(c) + np.abs(g).sum() + np.abs(h).sum()
    ei = float(res.expected_improvement)
    if not ei >= 0:
        viol.append(f"expected improvement {ei} ({ctx})")
    if not abs(ei - (v0 - v1)) <= 1e-10 * mag:
        viol.append(f"expected improvement {ei} but the model decreases by {v0 - v1} ({ctx})")
    if res.shape != shape:
        viol.append(f"shape {res.shape} of the solution of a {shape} problem ({ctx})")
    return ei


def cauchy(c, g, h, u0):
    gr = np.asarray(g) + h @ u0
    ts = np.concatenate([[0.0], np.geomspace(1e-5, 1e5, 121)])
    y = np.clip(u0 - ts[:, None] * gr, -1, 1)
    v = geo.poly(c, g, h, y)
    return float(v[0] - v.min())


# ------------------------------------------------------------------------------ sphere


def c_sphere(tier):
    for d in (1, 2, 3, 4):
        q = tier == "quick"
        gv = {1: [-3.0, -1e-3, 0.0, 1e-18, 1.0], 2: [-3.0, -1e-3, 0.0, 1e-18, 1.0], 3: [-3.0, 0.0, 1.0], 4: [-3.0, 0.0]}[d]
        if not q and d > 2:
            gv = [-3.0, -1e-3, 0.0, 1.0] if d == 3 else [-3.0, 0.0, 1.0]
        hs = {1: 0, 2: 0, 3: 1 if q else 0, 4: 3 if q else 2}[d]
        for g in itertools.product(gv, repeat=d):
            for s in ((1.0,) if d > 2 else (1.0, 1e-6, 1e6)):
                yield {"g": [v * s for v in g], "hs": hs, "s": s, "region": 0, "solvers": SPHERE[:2]}
        for k in range(1, 4):
            for g in itertools.product([-3.0, 0.0, 1.0] if d < 3 else [-3.0, 0.0], repeat=d):
                yield {"g": list(g), "hs": hs + (0 if d < 3 else 1 if d < 4 or not q else 0), "s": 1.0, "region": k, "solvers": SPHERE[1:2]}
        if d < 4:
            for g in itertools.product([-3.0, 0.0, 1.0] if d < 3 or not q else [-3.0, 0.0], repeat=d):
                yield {"g": list(g), "hs": 2, "s": 1.0, "region": 0, "solvers": SPHERE[2:]}


HS = {
    0: ([-2.0, -0.5, 0.0, 1e-6, 1.0, 30.0], [-1.0, 0.0, 0.5]),
    1: ([-2.0, 0.0, 1.0, 30.0], [-1.0, 0.0, 0.5]),
    2: ([-2.0, 0.0, 1.0], [0.0, 0.5]),
}


def _hs(level, d):
    diag, off = HS[min(level, 2)]
    if level >= 3:
        diag, off = [-2.0, 1.0], [0.0, 0.5]
    return geo.hess_lattice(d, diag, off)


def r_sphere(case):
    g = np.array(case["g"], float)
    d = len(g)
    spec = (geo.spheres(d, small=True) * 2)[case["region"]] if case["region"] else {"center": [0.0] * d, "radius": 1.0}
    reg = geo.region(spec)
    solvers = {n: _solver(n, "bntr") for n in case["solvers"]}
    viol, states, k, worst, nontriv = [], [], 0, 1.0, False
    for h in _hs(case["hs"], d):
        h = h * case["s"]
        best = None
        for n, f in solvers.items():
            c = 0.5 * case["s"]
            m = _model(c, g, h, reg)
            res = f(m, reg)
            k += 1
            ctx = f"{n} g={g.tolist()} h={h.tolist()} region={spec}"
            ei = contract(spec, c, g, h, m, reg, res, ctx, viol)
            if not (np.array_equal(m.linear_terms, g) and np.array_equal(m.square_terms, h)):
                viol.append(f"the model was modified ({ctx})")
            states.append(h64(n, case["g"], h.tolist(), case["region"]))
            if n.startswith("gqtpar") and ei is not None:
                if best is None:
                    best = -geo.sphere_min(0.0, g, h)[0]
                if best > 1e-12 * (abs(c) + np.abs(g).sum() + np.abs(h).sum()):
                    nontriv = True
                    worst = min(worst, ei / best)
                    if ei < 0.8 * best:
                        viol.append(f"decrease {ei} where {best} is possible ({ctx})")
        if len(viol) > 20:
            break
    return Res(viol, nontriv or "gqtpar" not in case["solvers"][0], f"worst quality {worst:.2f}", states, k, {"subproblems": k})


# ------------------------------------------------------------------------------ cube


def _cube_specs(d):
    out = [{"center": [0.0] * d, "radius": 1.0, "lb": [-0.3] * d, "ub": [0.2] * d}, {"center": [0.0] * d, "radius": 1.0, "lb": [-0.9] + [-50.0] * (d - 1), "ub": [50.0] * d}]
    return out + geo.cubes(d, small=True)


def c_cube(tier):
    q = tier == "quick"
    for d in (1, 2, 3):
        gv = {1: [-3.0, -1e-3, 0.0, 1.0], 2: [-3.0, -1e-3, 0.0, 1.0], 3: [-3.0, 0.0, 1.0]}[d]
        n = len(_cube_specs(d))
        for g in itertools.product(gv, repeat=d):
            for k in range(n):
                if d == 3 and k > (1 if q else 8):
                    continue
                hs = 0 if d < 3 else 1 if k < 2 else 2
                yield {"g": list(g), "hs": hs, "s": 1.0, "region": k, "solvers": CUBE[:2] if d < 3 or not q else CUBE[1:2], "opts": None}
            if d < 3:
                for s in (1e-3, 1e4):
                    yield {"g": [v * s for v in g], "hs": 1, "s": s, "region": 0, "solvers": CUBE[1:2], "opts": None}
                for meth in ("steihaug_toint", "trsbox"):
                    yield {"g": list(g), "hs": 1, "s": 1.0, "region": 0, "solvers": CUBE[1:2], "opts": {"conjugate_gradient_method": meth}}
                for o in ({"maxiter": 1}, {"maxiter_gradient_descent": 1}, {"gtol_scaled": 0.5}):
                    yield {"g": list(g), "hs": 2, "s": 1.0, "region": 0, "solvers": CUBE[1:2], "opts": o}
        for g in itertools.product([-3.0, 0.0, 1.0] if d < 3 else [-3.0, 0.0], repeat=d):
            for k in range(min(n, 4)):
                yield {"g": list(g), "hs": 2, "s": 1.0, "region": k, "solvers": CUBE[2:], "opts": None}
    for g in itertools.product([-3.0, 1.0], repeat=2):
        yield {"g": list(g), "hs": 3, "s": 1.0, "region": 0, "solvers": ["fallback_multistart"], "opts": None}


def r_cube(case):
    g = np.array(case["g"], float)
    d = len(g)
    spec = _cube_specs(d)[case["region"]]
    reg = geo.region(spec)
    _, ec, er = geo.ref_frame(spec)
    u0 = (np.array(spec["center"]) - ec) / er
    solvers = {n: _solver("gqtpar", n, opts=case["opts"]) for n in case["solvers"]}
    limited = bool(case["opts"]) and "conjugate_gradient_method" not in case["opts"]
    need_ratio = 0.7 if case["opts"] and case["opts"].get("conjugate_gradient_method") == "steihaug_toint" else 0.9
    viol, states, k, worst, nontriv = [], [], 0, 9.0, False
    for h in _hs(case["hs"], d):
        h = h * case["s"]
        ca = None
        for n, f in solvers.items():
            c = 0.5 * case["s"]
            m = _model(c, g, h, reg)
            res = f(m, reg)
            k += 1
            ctx = f"{n} {case['opts'] or ''} g={g.tolist()} h={h.tolist()} region={spec}"
            ei = contract(spec, c, g, h, m, reg, res, ctx, viol)
            if not (np.array_equal(m.linear_terms, g) and np.array_equal(m.square_terms, h)):
                viol.append(f"the model was modified ({ctx})")
            states.append(h64(n, case["g"], h.tolist(), case["region"], str(case["opts"])))
            if ei is None or limited:
                continue
            if n.startswith("bntr") or n == "fallback_multistart":
                if ca is None:
                    ca = cauchy(c, g, h, u0)
                if n == "fallback_multistart":
                    ca = geo.poly(c, g, h, u0)[0] - geo.cube_min(c, g, h)[0]
                if ca > 1e-9 * (abs(c) + np.abs(g).sum() + np.abs(h).sum()):
                    nontriv = True
                    worst = min(worst, ei / ca)
                    if ei < need_ratio * ca:
                        viol.append(f"decrease {ei}, a projected gradient step gives {ca} ({ctx})")
        if len(viol) > 20:
            break
    return Res(viol, nontriv or "bntr" not in case["solvers"][0], f"worst ratio {min(worst, 2):.1f}", states, k, {"subproblems": k})


# ------------------------------------------------------------------------------ custom and failing solvers


class Boom(Exception):
    pass


FAIL = [Boom("boom"), ValueError("Initial direction is zero."), ZeroDivisionError("division by zero"), np.linalg.LinAlgError("singular"), FloatingPointError("x"), IndexError("i"), RuntimeError("r"), KeyError("k"), AssertionError("a"), OverflowError("o")]


def c_fail(tier):
    for d in (1, 2, 3):
        for shape in ("sphere", "cube"):
            for e in range(len(FAIL)):
                for retry in (True, False):
                    yield {"d": d, "shape": shape, "fail": e, "retry": retry, "ns": 9 if d < 3 or tier != "quick" else 2 if e < 2 else 1}
            for out in ("far", "hull", "worse", "center", "better", "corner", "tiny"):
                yield {"d": d, "shape": shape, "custom": out}


def r_fail(case):
    d, shape = case["d"], case["shape"]
    viol, k, states = [], 0, []
    specs = geo.spheres(d, small=True) if shape == "sphere" else _cube_specs(d)[:6]
    other = "bntr" if shape == "sphere" else "gqtpar"
    for spec in specs[: case.get("ns", 9)]:
        reg = geo.region(spec)
        _, ec, er = geo.ref_frame(spec)
        u0 = (np.array(spec["center"]) - ec) / er
        for g in itertools.product([-3.0, 0.0, 1.0], repeat=d):
            for h in _hs(3, d):
                g = np.array(g)
                c = 0.5
                m = _model(c, g, h, reg)
                calls = []

                def solver(model, x_candidate, lower_bounds=None, upper_bounds=None):
                    calls.append(np.array(x_candidate))
                    if "fail" in case:
                        raise FAIL[case["fail"]]
                    gr = np.where(g == 0, 1.0, g)
                    x = {"far": -3.0 * gr, "hull": -gr / np.linalg.norm(gr), "worse": 0.5 * gr, "center": x_candidate, "better": -0.1 * gr, "corner": -np.sign(gr), "tiny": x_candidate - 1e-9 * gr}[case["custom"]]
                    return {"x": np.array(x, float), "criterion": -99.0, "n_iterations": 7, "success": True}

                names = (solver, other) if shape == "sphere" else (other, solver)
                ctx = f"{case} g={g.tolist()} h={h.tolist()} region={spec}"
                k += 1
                states.append(h64(str(case), g.tolist(), h.tolist(), str(spec)))
                try:
                    res = _solver(*names, retry=case.get("retry", False))(m, reg)
                except Exception as e:
                    if case.get("retry", True) or e is not FAIL[case["fail"]]:
                        viol.append(f"unexpected {type(e).__name__}: {e} ({ctx})")
                    continue
                if len(calls) != 1 or np.abs(calls[0] - u0).max() > 1e-12:
                    viol.append(f"the solver was called {len(calls)} times, start {calls[:1]} instead of {u0} ({ctx})")
                if "fail" in case and not case["retry"]:
                    viol.append(f"the error of the solver was swallowed ({ctx})")
                ei = contract(spec, c, g, h, m, reg, res, ctx, viol)
                if "fail" in case and case["retry"]:
                    fb = ("fallback_inscribed_cube", "bntr") if shape == "sphere" else ("gqtpar", "fallback_cube")
                    want = _solver(*fb)(_model(c, g, h, reg), reg)
                    if not np.allclose(res.x, want.x, atol=1e-12) or bool(res.success) != bool(want.success):
                        viol.append(f"fallback gives {res.x}, the fallback solver {want.x} ({ctx})")
                if "custom" in case and ei is not None:
                    gr = np.where(g == 0, 1.0, g)
                    raw = {"far": -3.0 * gr, "hull": -gr / np.linalg.norm(gr), "worse": 0.5 * gr, "center": u0, "better": -0.1 * gr, "corner": -np.sign(gr), "tiny": u0 - 1e-9 * gr}[case["custom"]]
                    raw = np.clip(raw, -1, 1) if shape == "cube" else raw / max(1.0, np.linalg.norm(raw))
                    dec = (geo.poly(c, g, h, u0) - geo.poly(c, g, h, raw))[0]
                    if dec < -1e-12:
                        if res.success or ei != 0 or np.abs(np.asarray(res.x) - spec["center"]).max() > 1e-12:
                            viol.append(f"a worse point was not replaced by the center: {res.x}, success {res.success} ({ctx})")
                    elif dec > 1e-12:
                        if not res.success or np.abs(res.x_unit - raw).max() > 1e-12 or res.n_iterations != 7:
                            viol.append(f"solution {raw} of the solver became {res.x_unit}, success {res.success} ({ctx})")
        if len(viol) > 20:
            break
    return Res(viol, True, f"{case.get('custom', 'fail')}", states, k, {"subproblems": k})


# ------------------------------------------------------------------------------ the step an optimization takes


SUBS = [
    Sub("sphere", c_sphere, r_sphere, timeout=300, what="sphere solvers x gradients x Hessians x scales x regions: contract, near global optimality", chunk=1),
    Sub("cube", c_cube, r_cube, timeout=300, what="cube solvers x conjugate gradient methods x options x clipped regions: contract, at least the projected gradient decrease", chunk=1),
    Sub("custom", c_fail, r_fail, timeout=300, what="solvers that raise or return points outside or worse points: fallback, projection, center", chunk=1),
]
