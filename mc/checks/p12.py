"""P12: moving, adding and aggregating models preserves predictions."""
import copy
import itertools

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of region pairs x coefficient lattices on the real model code; polynomial identity is decided on a determining set of points"
RULE = ("ordered pairs of regions x models with coefficients from a lattice; a quadratic is determined by its values on a grid with 3 points per coordinate, "
        "so that agreement on the grid (within rounding) is agreement everywhere; non-trivial: the two regions differ / the model is not constant")
ASSUMPTIONS = ["comparison with a relative tolerance of 1e-9"]
TOL = 1e-9


def regions(d, tier):
    out = geo.spheres(d, small=tier == "quick" and d == 3) + geo.cubes(d, small=tier == "quick" and d > 1 or d == 3)
    # mixed scales
    out.append({"center": [1.0, 2.0, 0.0][:d], "radius": 1.0, "lb": [0.99, -5.0, -0.3][:d], "ub": [3.0, 2.0, 5.0][:d]})
    return out


def coefs(d, quad, tier):
    """Coefficient vectors that span the space, and combinations with different signs."""
    gs = [np.zeros(d), *np.eye(d), np.arange(1, d + 1) * 1.5 - 2.0]
    hs = [None]
    if quad:
        hs = [np.zeros((d, d))]
        for i in range(d):
            h = np.zeros((d, d))
            h[i, i] = 1.0
            hs.append(h)
        for i, j in itertools.combinations(range(d), 2):
            h = np.zeros((d, d))
            h[i, j] = h[j, i] = 1.0
            hs.append(h)
        h = np.array([[2.0, -1.0, 0.5], [-1.0, -3.0, 0.25], [0.5, 0.25, 1.0]])[:d, :d]
        hs.append(h)
    for c in (0.0, 5.0):
        for g in gs:
            for h in hs:
                yield c, g, h


def make(kind, cs, gs, hs, reg):
    M = need("tranquilo.models", "ScalarModel" if kind == "scalar" else "VectorModel")
    if kind == "scalar":
        return M(intercept=float(cs[0]), linear_terms=gs[0].copy(), square_terms=None if hs is None else hs[0].copy(),
                 scale=reg.effective_radius, shift=reg.effective_center)
    return M(intercepts=np.array(cs, float), linear_terms=np.array(gs, float), square_terms=None if hs is None else np.array(hs, float),
             scale=reg.effective_radius, shift=reg.effective_center)


def snap(m):
    return copy.deepcopy({k: getattr(m, k) for k in m.__dataclass_fields__})


def same(a, b):
    return all((a[k] is None) == (b[k] is None) and (a[k] is None or np.array_equal(a[k], b[k])) for k in a)


def ref(cs, gs, hs, z):
    return np.column_stack([geo.poly(c, g, None if hs is None else hs[i], z) for i, (c, g) in enumerate(zip(cs, gs))])


# ------------------------------------------------------------------------------ moving


def c_move(tier):
    for d in (1, 2, 3):
        n = len(regions(d, tier))
        for i in range(n):
            for kind in ("scalar", "vector"):
                for quad in (False, True):
                    yield {"d": d, "from": i, "kind": kind, "quad": quad, "tier": tier}


def r_move(case):
    move = need("tranquilo.models", "move_model")
    d, kind, quad = case["d"], case["kind"], case["quad"]
    regs = regions(d, case["tier"])
    a = regs[case["from"]]
    A = geo.region(a)
    _, ca, ra = geo.ref_frame(a)
    all_c = list(coefs(d, quad, case["tier"]))
    viol, states, k = [], [], 0
    if kind == "vector":
        # three residuals at a time, different in every coefficient
        sets = [(all_c[i], all_c[(i * 5 + 3) % len(all_c)], all_c[(i * 7 + 1) % len(all_c)]) for i in range(0, len(all_c), 2)]
        sets += [(c,) for c in all_c[::3]]
    else:
        sets = [(c,) for c in all_c]
    z = geo.grid(d, [-1.0, 0.0, 1.0])
    for j, b in enumerate(regs):
        B = geo.region(b)
        _, cb, rb = geo.ref_frame(b)
        x = cb + rb * z
        za = (x - ca) / ra
        for n, s in enumerate(sets):
            cs, gs = [t[0] for t in s], [t[1] for t in s]
            hs = [t[2] for t in s] if quad else None
            m = make(kind, cs, gs, hs, A)
            before = snap(m)
            out = move(m, B)
            k += 1
            want = ref(cs, gs, hs, za)
            scale = max(1.0, np.abs(ref(np.abs(cs), [np.abs(g) for g in gs], None if hs is None else [np.abs(h) for h in hs], np.abs(za) + np.max((np.abs(ca) + np.abs(cb)) / ra))).max())
            got = out.predict(z)
            got = got.reshape(-1, 1) if kind == "scalar" else got
            bad = None
            if got.shape != want.shape or not np.all(np.abs(got - want) <= TOL * scale):
                bad = f"prediction at {x[np.argmax(np.abs(got - want).max(axis=1))].tolist()} changes" if got.shape == want.shape else f"prediction has shape {got.shape}"
            elif type(out) is not type(m):
                bad = f"the result is a {type(out).__name__}"
            elif not np.allclose(np.broadcast_to(out.scale, d), rb, rtol=1e-9) or not np.allclose(out.shift, cb, rtol=1e-9, atol=1e-12):
                bad = f"the moved model has shift {out.shift} and scale {out.scale}"
            elif (out.square_terms is None) != (hs is None):
                bad = "square terms appear or vanish"
            elif not same(before, snap(m)):
                bad = "the model was modified"
            else:
                back = move(out, A)
                gb = back.predict(z)
                gb = gb.reshape(-1, 1) if kind == "scalar" else gb
                if not np.all(np.abs(gb - ref(cs, gs, hs, z)) <= TOL * scale * 10):
                    bad = "moving back does not give the original model"
            if bad:
                viol.append(f"model {[(float(c), np.asarray(g).tolist()) for c, g in zip(cs, gs)]} {None if hs is None else np.array(hs).tolist()} from {a} to {b}: {bad}")
                break
        states.append(h64(d, case["from"], j, kind, quad))
        if len(viol) > 2:
            break
    return Res(viol, nontrivial=len(regs) > 1, outcome=h64(d, kind, quad, bool(viol)), states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ small moves

SMALL_R = [1.0, 1e-3, 1e-6, 1e-9]
SMALL_S = [1e-10, -3e-9, 2e-8, 1e-6, 1e-4, -0.3, 2.0]


def c_small(tier):
    """Regions around the origin (differences of coordinates are exact there) of very
    different sizes, and centers that are shifted by tiny and by ordinary multiples of the radius."""
    for d in (1, 2, 3):
        for r in SMALL_R:
            for kind in ("scalar", "vector"):
                for quad in (False, True):
                    yield {"d": d, "r": r, "kind": kind, "quad": quad}


def r_small(case):
    move = need("tranquilo.models", "move_model")
    d, kind, quad, r = case["d"], case["kind"], case["quad"], case["r"]
    A = geo.region({"center": [0.0] * d, "radius": r})
    all_c = list(coefs(d, quad, "quick"))
    if kind == "vector":
        sets = [(all_c[i], all_c[(i * 5 + 3) % len(all_c)]) for i in range(len(all_c))]
    else:
        sets = [(c,) for c in all_c]
    z = geo.grid(d, [-1.0, 0.0, 1.0])
    viol, k, states = [], 0, []
    for s, ratio in itertools.product(SMALL_S, (1.0, 0.5, 4.0, 1e-3)):
        cb = np.array([s, 0.0, -0.5 * s])[:d] * r
        B = geo.region({"center": cb.tolist(), "radius": r * ratio})
        za = cb / r + z * ratio
        for t in sets:
            cs, gs = [q[0] for q in t], [q[1] for q in t]
            hs = [q[2] for q in t] if quad else None
            out = move(make(kind, cs, gs, hs, A), B)
            k += 1
            got = out.predict(z).reshape(len(z), -1)
            want = ref(cs, gs, hs, za)
            scale = max(1.0, np.abs(want).max())
            if got.shape != want.shape or np.abs(got - want).max() > 1e-13 * scale * d ** 2:
                viol.append(f"model {[(float(c), g.tolist()) for c, g in zip(cs, gs)]} {None if hs is None else np.array(hs).tolist()}, radius {r}, moved by {cb.tolist()} to radius {r * ratio}: "
                            f"predictions change by {np.abs(got - want).max()}")
                break
        states.append(h64(case, s, ratio))
        if len(viol) > 2:
            break
    return Res(viol, outcome=h64(kind, quad, bool(viol)), states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ adding


def c_add(tier):
    for d in (1, 2, 3):
        for kind in ("scalar", "vector"):
            for quad in (False, True):
                for i in range(len(regions(d, tier))):
                    yield {"d": d, "kind": kind, "quad": quad, "reg": i, "tier": tier}


def r_add(case):
    add = need("tranquilo.models", "add_models")
    d, kind, quad = case["d"], case["kind"], case["quad"]
    regs = regions(d, case["tier"])
    A = geo.region(regs[case["reg"]])
    B = geo.region(regs[case["reg"]])
    cl = list(coefs(d, quad, "quick"))
    z = geo.grid(d, [-1.0, 0.0, 1.0])
    viol, k = [], 0
    for i in range(len(cl)):
        for j in range(0, len(cl), 3):
            s, t = [cl[i]], [cl[j]]
            if kind == "vector":
                s.append(cl[(i + 3) % len(cl)])
                t.append(cl[(j + 5) % len(cl)])
            un = lambda q: ([a[0] for a in q], [a[1] for a in q], [a[2] for a in q] if quad else None)  # noqa: E731
            m1, m2 = make(kind, *un(s), A), make(kind, *un(t), B)
            b1, b2 = snap(m1), snap(m2)
            out = add(m1, m2)
            k += 1
            want = ref(*un(s), z) + ref(*un(t), z)
            got = out.predict(z)
            got = got.reshape(-1, 1) if kind == "scalar" else got
            if geo.err(got, want) > 1e-12:
                viol.append(f"{s} + {t}: predictions do not add up")
            if not same(b1, snap(m1)) or not same(b2, snap(m2)):
                viol.append(f"{s} + {t}: a summand was modified")
            if not np.array_equal(out.shift, m1.shift) or not np.array_equal(out.scale, m1.scale):
                viol.append(f"{s} + {t}: the sum lives on another region")
            if viol:
                break
        if viol:
            break
    # different regions or types cannot be added
    c = cl[3]
    for o, spec in enumerate(regs):
        C = geo.region(spec)
        if np.allclose(C.effective_center, A.effective_center) and np.allclose(C.effective_radius, A.effective_radius):
            continue
        try:
            add(make(kind, [c[0]], [c[1]], [c[2]] if quad else None, A), make(kind, [c[0]], [c[1]], [c[2]] if quad else None, C))
            viol.append(f"models of the regions {regs[case['reg']]} and {spec} can be added")
        except ValueError:
            k += 1
    try:
        add(make("scalar", [c[0]], [c[1]], None, A), make("vector", [c[0]], [c[1]], None, A))
        viol.append("a scalar and a vector model can be added")
    except TypeError:
        pass
    return Res(viol[:3], outcome=h64(d, kind, quad), states=[h64(case)], transitions=k, sample=case)


# ------------------------------------------------------------------------------ aggregation


def c_agg(tier):
    vals = [-2, -1, 0, 1, 3] if tier != "quick" else [-2, 0, 1]
    for d in (1, 2, 3):
        for m in (1, 2, 3):
            if d * m <= 4 or (tier != "quick" and d * m <= 6):
                for c in itertools.product(vals, repeat=m):
                    yield {"d": d, "m": m, "c": list(c), "vals": vals if d * m <= 4 else [-2, 0, 1]}


def r_agg(case):
    get = need("tranquilo.aggregate_models", "get_aggregator")
    d, m = case["d"], case["m"]
    viol, k, states = [], 0, []
    z = geo.grid(d, [-1.0, 0.0, 1.0])
    A = geo.region({"center": [0.5, -1.0, 2.0][:d], "radius": 0.7})
    C = geo.region(geo.cubes(d, small=True)[0])
    ls, info, tot, ident = (get(n) for n in ("least_squares_linear", "information_equality_linear", "sum", "identity"))
    hs_all = list(geo.hess_lattice(d, [-1.0, 2.0], [0.5] if d > 1 else [0.0]))
    for n, g in enumerate(itertools.product(case["vals"], repeat=d * m)):
        G = np.array(g, float).reshape(m, d)
        c = np.array(case["c"], float)
        reg = (A, C)[n % 2]
        lin = make("vector", c, G, None, reg)
        before = snap(lin)
        states.append(h64(case, g))
        fv = lin.predict(z)
        if geo.err(fv, ref(c, G, None, z)) > 1e-12:
            viol.append("wrong prediction of the vector model")
        outs = {"least_squares": (ls(vector_model=lin), (fv ** 2).sum(axis=1))}
        i = info(vector_model=lin)
        want_i = fv.sum(axis=1) - 0.25 * ((z @ G.T) ** 2).sum(axis=1)
        outs["information_equality"] = (i, want_i)
        H = [hs_all[(n + r) % len(hs_all)] for r in range(m)]
        quad = make("vector", c, G, H, reg)
        bq = snap(quad)
        outs["sum"] = (tot(vector_model=quad), quad.predict(z).sum(axis=1))
        if m == 1:
            outs["identity"] = (ident(vector_model=quad), quad.predict(z)[:, 0])
            outs["identity of a linear model"] = (ident(vector_model=lin), lin.predict(z)[:, 0])
        k += len(outs)
        if geo.err(quad.predict(z), ref(c, G, H, z)) > 1e-12:
            viol.append(f"wrong prediction of the quadratic vector model c={c.tolist()} G={G.tolist()} H={np.array(H).tolist()}")
        for name, (s, want) in outs.items():
            got = s.predict(z)
            if geo.err(got, want) > 1e-12:
                viol.append(f"{name} of c={c.tolist()} G={G.tolist()}: {got.tolist()} instead of {np.asarray(want).tolist()}")
            if not (np.array_equal(s.shift, reg.effective_center) and np.array_equal(s.scale, reg.effective_radius)):
                viol.append(f"{name}: the scalar model lives on another region")
            if np.ndim(s.intercept) != 0 or np.shape(s.linear_terms) != (d,) or np.shape(s.square_terms) != (d, d):
                viol.append(f"{name}: wrong shapes")
            elif not np.array_equal(s.square_terms, s.square_terms.T):
                viol.append(f"{name}: the Hessian is not symmetric")
            one = np.array([s.predict(p) for p in z])
            if one.shape != got.shape or geo.err(one, got) > 1e-13:
                viol.append(f"{name}: predictions for one and for many points differ")
        if not same(before, snap(lin)) or not same(bq, snap(quad)):
            viol.append("the vector model was modified")
        one = np.array([quad.predict(p) for p in z])
        if geo.err(one, quad.predict(z)) > 1e-13:
            viol.append("predictions of the vector model for one and for many points differ")
        if viol:
            break
    return Res(viol[:3], outcome=h64(d, m, case["c"]), states=states, transitions=k, sample=case)


def c_misc(tier):
    for what in ("names", "counts", "single"):
        for d in range(1, 8):
            yield {"what": what, "d": d}


def r_misc(case):
    m = "tranquilo.models"
    d, viol = case["d"], []
    if case["what"] == "names":
        get = need("tranquilo.aggregate_models", "get_aggregator")
        for bad in ("nope", "identity ", ""):
            try:
                get(bad)
                viol.append(f"unknown aggregator {bad!r} is accepted")
            except (ValueError, KeyError, TypeError):
                pass
    elif case["what"] == "counts":
        n = need(m, "n_free_params")
        if n(d, "linear") != d + 1 or n(d, "quadratic") != (d + 1) * (d + 2) // 2:
            viol.append(f"number of free parameters in dimension {d}: {n(d, 'linear')}, {n(d, 'quadratic')}")
        if need(m, "n_interactions")(d) != d * (d - 1) // 2 or need(m, "n_second_order_terms")(d) != d * (d + 1) // 2:
            viol.append("wrong number of second order terms")
        try:
            n(d, "cubic")
            viol.append("unknown model types are accepted")
        except ValueError:
            pass
    else:
        # vector models whose number of residuals and samples coincide in all ways
        VM = need(m, "VectorModel")
        for nres in (1, 2, d, d + 1):
            for ns in (1, 2, nres, d):
                c = np.arange(nres) * 1.0 - 1
                G = np.arange(nres * d).reshape(nres, d) * 0.5 - 1
                H = np.array([np.add.outer(np.arange(d), np.arange(d)) * (r + 1.0) - 2 for r in range(nres)])
                z = (np.arange(ns * d).reshape(ns, d) * 0.37) % 1 - 0.4
                p = VM(c, G, H, scale=1.0, shift=np.zeros(d)).predict(z)
                if p.shape != (ns, nres) or geo.err(p, ref(c, G, H, z)) > 1e-12:
                    viol.append(f"wrong prediction with {nres} residuals, {ns} points in dimension {d}")
                p = VM(c, G, None, scale=1.0, shift=np.zeros(d)).predict(z)
                if p.shape != (ns, nres) or geo.err(p, ref(c, G, None, z)) > 1e-12:
                    viol.append(f"wrong linear prediction with {nres} residuals, {ns} points in dimension {d}")
    return Res(viol[:3], outcome=h64(case["what"]), states=[h64(case)], transitions=1, sample=case)


SUBS = [
    Sub("move", c_move, r_move, what="ordered region pairs x models, there and back"),
    Sub("small", c_small, r_small, what="regions of very different size around the origin, shifts that are tiny multiples of the radius"),
    Sub("add", c_add, r_add, what="sums of models"),
    Sub("aggregate", c_agg, r_agg, what="aggregators on coefficient lattices"),
    Sub("misc", c_misc, r_misc, what="shapes, counts and names"),
]
