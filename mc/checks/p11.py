"""P11: surrogate models reproduce the data they are fitted to."""
import copy
import itertools

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of samples on lattices x polynomial bases x fitters on the real fitting code against exact references"
RULE = ("all subsets of lattice points as samples (poised ones are judged for reproduction) x a basis of the polynomials x fitters x regions x weights x "
        "residualization; non-trivial: the sample identifies or underdetermines the model and the data are not constant")
ASSUMPTIONS = ["numba runs in interpreted mode", "feature matrices with a condition number below 1e6; relative tolerance 1e-7",
               "weights are positive; the powell fitter has no weights"]
TOL = 1e-7

GRID = {
    1: [[-1.0], [-0.5], [0.0], [0.4], [1.0]],
    2: [[0.0, 0.0], [0.9, 0.0], [0.0, 0.8], [-0.7, 0.1], [0.1, -0.9], [0.6, 0.7], [-0.5, 0.6], [0.5, -0.5], [-0.6, -0.6]],
    3: [[0.0, 0.0, 0.0], [0.9, 0.0, 0.0], [0.0, 0.8, 0.0], [0.0, 0.1, 0.9], [-0.7, 0.1, 0.0], [0.1, -0.9, 0.0], [0.0, 0.2, -0.8], [0.5, 0.6, 0.1],
        [0.5, -0.1, 0.6], [-0.1, 0.5, -0.6], [-0.5, -0.5, 0.4], [0.3, -0.6, -0.6]],
}


def regs(d):
    out = [{"center": [0.0] * d, "radius": 1.0}, {"center": [3.0, -1.0, 0.5][:d], "radius": 0.2}]
    out.append({"center": [0.5, -1.0, 2.0][:d], "radius": 0.8, "lb": [0.4, -50.0, 1.9][:d], "ub": [30.0, -0.9, 9.0][:d]})
    return out


FITTERS = [
    ("ols", {}), ("tranquilo", {}), ("powell", {}), ("ridge", {"l2_penalty_linear": 0.0, "l2_penalty_square": 0.0}),
    ("ridge", {}), ("ridge", {"l2_penalty_linear": 0.5, "l2_penalty_square": 0.3}),
    ("tranquilo", {"p_intercept": 0.5, "p_linear": 1.0, "p_square": 0.25}),
]


def feats(z, mt):
    n, d = z.shape
    cols = [np.ones(n), *z.T]
    if mt == "quadratic":
        cols += [z[:, i] * z[:, j] for i in range(d) for j in range(i, d)]
    return np.column_stack(cols)


def n_free(d, mt):
    return d + 1 if mt == "linear" else (d + 1) * (d + 2) // 2


def basis(d, mt):
    """Coefficient vectors: a basis of the model class and a mixture."""
    p = n_free(d, mt)
    return np.column_stack([np.eye(p), np.linspace(-2, 3, p), np.cos(np.arange(p) * 2.0) * 3])


def weights_of(kind, n):
    if kind is None:
        return None
    return {"one": np.ones(n), "mix": 0.5 + (np.arange(n) * 7 % 5) / 2.0}[kind]


def old_model(d, mt, nres, k):
    """A previous model on another region."""
    VM = need("tranquilo.models", "VectorModel")
    r = geo.region(regs(d)[k])
    G = (np.arange(nres * d).reshape(nres, d) * 0.3 - 0.7) % 1.3
    H = None
    if mt == "quadratic":
        H = np.array([np.add.outer(np.arange(d), np.arange(d)) * 0.4 - 0.3 * i for i in range(nres)])
    return VM(np.arange(nres) * 0.5 + 1, G, H, scale=r.effective_radius, shift=r.effective_center)


def coefs_of(model, d, mt):
    """Coefficients on the features from the model (independent of the fitting code)."""
    out = [np.atleast_1d(model.intercepts)[:, None], model.linear_terms]
    if mt == "quadratic":
        h = model.square_terms
        out.append(np.column_stack([h[:, i, j] * (0.5 if i == j else 1.0) for i in range(d) for j in range(i, d)]))
    return np.hstack(out).T  # (features, residuals)


def subsets(d, n, tier):
    pts = range(len(GRID[d]))
    if d == 3 and n > 4 and tier == "quick":
        pts = range(10)
    cnt = 0
    for s in itertools.combinations(pts, n):
        cnt += 1
        if d == 3 and tier == "quick" and cnt % 7 != 1 and n in (5, 6, 7):
            continue
        yield list(s)


def c_fit(tier):
    for d in (1, 2, 3):
        for mt in ("linear", "quadratic"):
            for f in range(len(FITTERS)):
                for r in range(3):
                    for resid in ((False, None), (True, 0), (True, 2)):
                        for w in (None, "mix"):
                            if FITTERS[f][0] == "powell" and w:
                                continue
                            if tier == "quick" and d == 3 and (r == 0 or f == 6):
                                continue
                            top = len(GRID[d]) if d < 3 else 11
                            sizes = range(d + 1, top + 1) if d < 3 else ([4, 5, 7, 9, 10] if tier == "quick" else range(4, 12))
                            if mt == "linear":
                                sizes = range(d + 1, d + 4)
                            for n in sizes:
                                if n <= len(GRID[d]):
                                    yield {"d": d, "mt": mt, "f": f, "r": r, "resid": resid[1], "w": w, "n": n, "tier": tier}


def fitter(case, clip="relative"):
    name, opts = FITTERS[case["f"]]
    return need("tranquilo.fit_models", "get_fitter")(name, dict(opts), case["mt"], case["resid"] is not None, clip)


def r_fit(case):
    d, mt, n = case["d"], case["mt"], case["n"]
    name, opts = FITTERS[case["f"]]
    spec = regs(d)[case["r"]]
    reg = geo.region(spec)
    _, cen, rad = geo.ref_frame(spec)
    fit = fitter(case)
    p = n_free(d, mt)
    C = basis(d, mt)
    w = weights_of(case["w"], n)
    viol, k, nontriv, outs = [], 0, 0, set()
    probe = geo.grid(d, [-1.0, 0.0, 1.0])
    F_probe = feats(probe, mt)
    for s in subsets(d, n, case["tier"]):
        z = np.array([GRID[d][i] for i in s])
        F = feats(z, mt)
        sv = np.linalg.svd(F, compute_uv=False)
        full = sv[-1] * 1e6 > sv[0]  # full row or column rank, well conditioned
        x = cen + rad * z
        # (a) data from the model class, (b) arbitrary data
        for data in ("class", "free"):
            Y = F @ C if data == "class" else np.column_stack([np.sin(np.arange(n) * 3.0), (np.arange(n) % 3) * 1.0 - 1])
            om = None if case["resid"] is None else old_model(d, mt, Y.shape[1], case["resid"])
            om_keep, x_in, y_in, w_in = copy.deepcopy(om), x.copy(), Y.copy(), None if w is None else w.copy()
            m = fit(x_in, y_in, region=reg, old_model=om, weights=w_in)
            k += 1
            ctx = f"{name} {opts} {mt} d={d} region={spec} residualize={case['resid'] is not None} weights={None if w is None else w.tolist()} unit sample={z.tolist()}, {data} data"
            if not np.array_equal(x_in, x) or not np.array_equal(y_in, Y) or (w is not None and not np.array_equal(w, w_in)):
                viol.append(f"{ctx}: the data were modified")
            if om is not None and not all(np.array_equal(getattr(om, a), getattr(om_keep, a)) for a in ("intercepts", "linear_terms", "shift", "scale")):
                viol.append(f"{ctx}: the old model was modified")
            if not np.allclose(m.shift, cen) or not np.allclose(np.broadcast_to(m.scale, d), rad):
                viol.append(f"{ctx}: the model has shift {m.shift} and scale {m.scale}")
            if mt == "quadratic":
                if m.square_terms is None or not np.allclose(m.square_terms, m.square_terms.transpose(0, 2, 1), rtol=1e-12, atol=1e-12):
                    viol.append(f"{ctx}: the Hessians are not symmetric")
                    break
            elif m.square_terms is not None:
                viol.append(f"{ctx}: a linear model has square terms")
            coef = coefs_of(m, d, mt)
            pred = np.asarray(m.predict(z))
            if geo.err(pred, F @ coef) > 1e-9:
                viol.append(f"{ctx}: the model does not predict what its coefficients say")
            off = 0.0
            if om is not None:
                # coefficients of the old model on this region by exact interpolation
                zo = (cen + rad * geo.grid(d, [-1.0, 0.0, 1.0]) - om_keep.shift) / om_keep.scale
                off = np.linalg.lstsq(F_probe, np.asarray(om_keep.predict(zo)), rcond=None)[0]
            R = Y - F @ off if om is not None else Y
            b = coef - off  # coefficients that the penalty applies to
            sw = np.ones(n) if w is None else w
            size = 1 + np.abs(R).max() + np.abs(b).max()
            pen = np.zeros(p)
            if name == "ridge":
                pen[1: d + 1] = opts.get("l2_penalty_linear", 0.0)
                pen[d + 1:] = opts.get("l2_penalty_square", 0.1)
            if not full:
                outs.add("singular")
                if not np.isfinite(coef).all():
                    viol.append(f"{ctx}: coefficients are not finite")
                continue
            nontriv += 1
            if name == "ridge" and (pen[1:].any() or n < p):
                # the gradient of the penalized least squares objective vanishes
                grad = F.T @ (sw[:, None] * (F @ b - R)) + pen[:, None] * b
                if np.abs(grad).max() > TOL * size * 10:
                    viol.append(f"{ctx}: not the minimum of the penalized least squares objective, gradient {np.abs(grad).max():.2e}")
                outs.add("penalized")
            elif n >= p:
                if data == "class":
                    e = np.abs(coef - C).max()
                    if e > TOL * size * sv[0] / sv[-1]:
                        j = int(np.argmax(np.abs(coef - C).max(axis=0)))
                        viol.append(f"{ctx}: the polynomial {C[:, j].tolist()} became {coef[:, j].tolist()}")
                    outs.add("reproduced")
                grad = F.T @ (sw[:, None] * (F @ b - R))
                if np.abs(grad).max() > TOL * size * 10:
                    viol.append(f"{ctx}: not the least squares optimum, gradient {np.abs(grad).max():.2e}")
            else:
                if name == "powell" and not np.linalg.cond(F[:, : d + 1]) < 1e6:
                    # with n + 1 points a linear model is fitted; more points must identify the linear part
                    outs.add("singular")
                    continue
                e = np.abs(pred - Y).max()
                if e > TOL * size * sv[0] / sv[-1] * 10:
                    viol.append(f"{ctx}: the data are not interpolated, error {e:.2e}")
                outs.add("interpolated")
                if name in ("ols", "tranquilo"):
                    # minimal (weighted) norm among all interpolating coefficients
                    fac = np.ones(p)
                    if name == "tranquilo":
                        fac[0] = opts.get("p_intercept", 0.05)
                        fac[1: d + 1] = opts.get("p_linear", 0.4)
                        fac[d + 1:] = opts.get("p_square", 1.0)
                    want = np.linalg.pinv(F / fac, rcond=1e-12) @ R / fac[:, None]
                    if np.abs(want - b).max() > TOL * size * sv[0] / sv[-1] * 100:
                        viol.append(f"{ctx}: not the interpolating model with the smallest coefficients: {b[:, 0].tolist()} instead of {want[:, 0].tolist()}")
            # order of the points
            for perm in (range(n - 1, -1, -1), [*range(1, n), 0]):
                perm = list(perm)
                m2 = fit(x[perm], Y[perm], region=reg, old_model=copy.deepcopy(om_keep), weights=None if w is None else w[perm])
                e = np.abs(coefs_of(m2, d, mt) - coef).max()
                if e > TOL * size * (sv[0] / sv[-1]) * 10:
                    viol.append(f"{ctx}: another model for the order {perm} of the points (difference {e:.2e})")
                    break
            if viol:
                break
        if viol:
            break
    return Res(viol[:2], nontrivial=nontriv > 0, outcome=h64(name, mt, sorted(outs)), states=[h64(case)], transitions=k, extra={"fits": k, "judged": nontriv}, sample=case)


# ------------------------------------------------------------------------------ infinities and residual dimensions


def c_inf(tier):
    for d in (1, 2):
        for mt in ("linear", "quadratic"):
            for f in (0, 1, 2, 4):
                for resid in (None, 2):
                    for nres in (1, 2, 3):
                        yield {"d": d, "mt": mt, "f": f, "resid": resid, "nres": nres, "tier": tier}


def r_inf(case):
    """fitting data with infinities is fitting the clipped data; user supplied handlers are used"""
    d, mt, nres = case["d"], case["mt"], case["nres"]
    n = min(n_free(d, mt) + 1, len(GRID[d]))
    z = np.array(GRID[d][:n])
    spec = regs(d)[2]
    reg = geo.region(spec)
    _, cen, rad = geo.ref_frame(spec)
    x = cen + rad * z
    clip = need("tranquilo.handle_infinity", "get_infinity_handler")("relative")
    om = lambda: None if case["resid"] is None else old_model(d, mt, nres, 1)  # noqa: E731
    base = np.column_stack([np.sin(np.arange(n) * (j + 2.0)) for j in range(nres)])
    fit = fitter(case)
    user = fitter(case, clip=lambda fvecs: np.where(np.isfinite(fvecs), fvecs, 7.0))
    viol, k, states = [], 0, []
    for pos in itertools.product(range(n), range(nres), [np.inf, -np.inf]):
        for row in (False, True):
            y = base.copy()
            if row:
                y[pos[0]] = pos[2]
            else:
                y[pos[0], pos[1]] = pos[2]
            a = fit(x, y.copy(), region=reg, old_model=om())
            b = fit(x, clip(y), region=reg, old_model=om())
            u = user(x, y.copy(), region=reg, old_model=om())
            v = fit(x, np.where(np.isfinite(y), y, 7.0), region=reg, old_model=om())
            k += 2
            states.append(h64(case, pos[0], pos[1], repr(pos[2]), row))
            for g, h, what in ((a, b, "built-in"), (u, v, "user supplied")):
                cg, ch = coefs_of(g, d, mt), coefs_of(h, d, mt)
                if not np.isfinite(cg).all() or geo.err(cg, ch) > 1e-9:
                    viol.append(f"{FITTERS[case['f']]} {mt} d={d}: data {y.tolist()} are not fitted like after {what} infinity handling")
            if viol:
                return Res(viol[:1], outcome="x", states=states, transitions=k)
    return Res([], outcome=h64(case), states=states, transitions=k, sample=case)


def c_user(tier):
    for d in (1, 2, 3):
        for mt in ("linear", "quadratic"):
            for nres in (1, 2, 4):
                for resid in (None, 0, 2):
                    yield {"d": d, "mt": mt, "nres": nres, "resid": resid}


def r_user(case):
    """user supplied fitters get unit space data and their coefficients are used as documented"""
    d, mt, nres = case["d"], case["mt"], case["nres"]
    p = n_free(d, mt)
    C = (np.arange(p * nres).reshape(p, nres) * 0.37) % 2 - 1
    seen = {}

    def my_fit(x, y, model_type):
        seen.update(x=x.copy(), y=np.array(y), mt=model_type)
        return C.T.copy()

    viol = []
    for spec in regs(d):
        reg = geo.region(spec)
        _, cen, rad = geo.ref_frame(spec)
        z = np.array(GRID[d][:4])
        fit = need("tranquilo.fit_models", "get_fitter")(my_fit, None, mt, case["resid"] is not None, "relative")
        Y = np.column_stack([np.arange(len(z)) * (j + 1.0) for j in range(nres)])
        om = None if case["resid"] is None else old_model(d, mt, nres, case["resid"])
        m = fit(cen + rad * z, Y, region=reg, old_model=om)
        off, want = 0.0, Y
        if om is not None:
            g = geo.grid(d, [-1.0, 0.0, 1.0])
            off = np.linalg.lstsq(feats(g, mt), np.asarray(om.predict((cen + rad * g - om.shift) / om.scale)), rcond=None)[0]
            want = Y - feats(z, mt) @ off
        if seen["mt"] != mt or geo.err(seen["x"], z) > 1e-9 or geo.err(seen["y"], want) > 1e-9:
            viol.append(f"{case}: the fitter received x={seen['x'].tolist()} y={seen['y'].tolist()}")
        if geo.err(coefs_of(m, d, mt), C + off) > 1e-9:
            viol.append(f"{case}: coefficients {C.tolist()} became {coefs_of(m, d, mt).tolist()}")
    return Res(viol[:2], outcome=h64(case), states=[h64(case)], transitions=3, sample=case)


SUBS = [
    Sub("fit", c_fit, r_fit, what="samples x polynomial bases x fitters"),
    Sub("infinities", c_inf, r_inf, what="every position of an infinite value"),
    Sub("user", c_user, r_user, what="user supplied fitters"),
]
