"""P21: poisedness constant and determinant based sample quality."""
import itertools
import warnings

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all samples from small lattices on the real functions, against Lagrange polynomials and exact maximizers computed independently"
RULE = "one case = one sample; non-trivial: the sample is affinely independent"
ASSUMPTIONS = ["the numerical optimizer inside is accurate to 2e-3; samples whose polynomials have several local maxima and for which it stops at a smaller one are listed as findings"]


def monomials(x):
    x = np.atleast_2d(x)
    n, d = x.shape
    cols = [np.ones(n), *x.T]
    for i in range(d):
        for j in range(i, d):
            cols.append(x[:, i] * x[:, j] * (0.5 if i == j else 1.0))
    return np.column_stack(cols)


def lagrange(sample):
    """Coefficients (c, g, h) of all Lagrange polynomials (least squares / minimum norm if not square)."""
    n, d = sample.shape
    coef = np.linalg.pinv(monomials(sample)).T
    out = []
    for p in coef:
        h = np.zeros((d, d))
        for (i, j), v in zip(((i, j) for i in range(d) for j in range(i, d)), p[d + 1:]):
            h[i, j] = h[j, i] = v
        out.append((p[0], p[1: d + 1], h))
    return out


def true_constant(polys, shape):
    f = geo.sphere_min if shape == "sphere" else geo.cube_min
    return [max(-f(-c, -g, -h)[0], -f(c, g, h)[0]) for c, g, h in polys]


def value(poly, x):
    c, g, h = poly
    return abs(c + g @ x + 0.5 * x @ h @ x)


def in_region(x, shape, tol=1e-5):
    return np.isfinite(x).all() and (np.linalg.norm(x) if shape == "sphere" else np.abs(x).max()) <= 1 + tol


def constant(sample, shape):
    f = need("tranquilo.poisedness", "get_poisedness_constant")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(sample=sample, shape=shape)


CIRCLE = [[0.0, 0.0], [1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0], [0.6, 0.8], [-0.6, 0.8], [-0.6, -0.5], [0.4, -0.3]]
GRID = [list(p) for p in itertools.product([-1.0, 0.0, 1.0], repeat=2)]
CLOUD3 = [[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [0.6, 0.6, 0], [0.6, 0, 0.6], [0, 0.6, 0.6], [-0.5, 0.5, 0.5], [0.2, -0.7, 0.1]]


def well_posed(s):
    """The sample determines its polynomials: full rank of the monomials and a moderate condition number."""
    m = monomials(s)
    sv = np.linalg.svd(m, compute_uv=False)
    r = np.linalg.matrix_rank(np.column_stack([np.ones(len(s)), s]))
    return r == s.shape[1] + 1 and sv[min(m.shape) - 1] > 1e-2 * sv[0]


def perturbed(s, shape):
    """Constants of samples that differ only by rounding errors."""
    rng = np.random.default_rng(0)
    return [constant(s * (1 + e * rng.normal(size=s.shape)), shape)[0] for e in (1e-13, 1e-13, 1e-12, 1e-12, 1e-11)]


def stable(s, shape, lam):
    """The local maximum that is found does not depend on rounding errors."""
    return all(abs(v - lam) <= 2e-3 * lam for v in perturbed(s, shape))


def c_const(tier):
    pts1 = [[v] for v in (-1.0, -0.5, 0.0, 0.3, 1.0)]
    for n in (2, 3, 4):
        for s in itertools.combinations(pts1, n):
            for shape in ("sphere", "cube"):
                yield {"s": [list(p) for p in s], "shape": shape}
    for pts, shape in ((CIRCLE, "sphere"), (GRID, "cube")):
        for n in (6,) if tier == "quick" else (4, 5, 6, 7):
            for s in itertools.combinations(pts, n):
                if well_posed(np.array(s)):
                    yield {"s": [list(p) for p in s], "shape": shape}
    for drop in itertools.combinations(range(1, 12), 2):
        s = np.array([p for i, p in enumerate(CLOUD3) if i not in drop], float)
        if well_posed(s) and (tier != "quick" or drop[0] == 11 - drop[1] or drop[1] - drop[0] == 5):
            for shape in ("sphere", "cube"):
                yield {"s": s.tolist(), "shape": shape}


def base_checks(s, shape, lam, arg, idx, polys, out):
    true = true_constant(polys, shape)
    if not (isinstance(idx, (int, np.integer)) and 0 <= idx < len(s)):
        out.append(f"index {idx}")
        return true
    if np.shape(arg) != (s.shape[1],) or not in_region(np.asarray(arg), shape):
        out.append(f"the reported point {np.asarray(arg).tolist()} is outside of the {shape}")
        return true
    v = value(polys[idx], np.asarray(arg))
    if not abs(v - lam) <= 1e-6 * (1 + abs(lam)):
        out.append(f"the constant {lam} is not the value {v} of polynomial {idx} at the reported point")
    if lam > max(true) * (1 + 1e-4) + 1e-6:
        out.append(f"the constant {lam} is larger than the maximum {max(true)}")
    if lam < max(value(p, np.zeros(s.shape[1])) for p in polys) * (1 - 1e-3):
        out.append(f"the constant {lam} is smaller than a value at the center")
    return true


def r_const(case):
    s = np.array(case["s"], float)
    shape = case["shape"]
    polys = lagrange(s)
    keep = s.copy()
    out = []
    lam, arg, idx = constant(s, shape)
    if not np.array_equal(keep, s):
        out.append("the sample is modified")
    true = base_checks(s, shape, lam, arg, idx, polys, out)
    # reversing the order of the points permutes the polynomials and nothing else
    lam2, arg2, idx2 = constant(s[::-1].copy(), shape)
    if abs(lam2 - lam) > 2e-3 * lam and stable(s, shape, lam):
        out.append(f"the constant depends on the order of the points: {lam} and {lam2}")
    return Res([f"{shape} {case['s']}: {o}" for o in out[:2]], nontrivial=well_posed(s), outcome=h64(round(float(lam), 2)), states=[h64(case)], transitions=2,
               sample=case, extra={"global_maximum_found": int(lam > max(true) * (1 - 2e-3))})


def r_global(case):
    s = np.array(case["s"], float)
    shape = case["shape"]
    true = true_constant(lagrange(s), shape)
    lam, arg, idx = constant(s, shape)
    out = []
    if lam < max(true) * (1 - 2e-3) and all(v < max(true) * (1 - 2e-3) for v in perturbed(s, shape)):
        out.append(f"{shape} {case['s']}: the constant is {lam}, the maximum over the region is {max(true)}")
    if len(s) == monomials(s).shape[1] and well_posed(s) and out and lam < 1 - 2e-3 and all(in_region(p, shape) for p in s):
        out.append(f"{shape} {case['s']}: the constant {lam} of an interpolating sample is below one")
    return Res(out, outcome=h64(round(max(true), 2)), states=[h64(case)], transitions=1, sample=case)


def c_global(tier):
    k = 0
    for case in c_const("quick"):
        k += 1
        if len(case["s"][0]) == 1 or k % 4 == 0:
            yield case


def c_improve(tier):
    for s, shape in ((CIRCLE[:3] + CIRCLE[5:8], "sphere"), (GRID[:6], "cube"), (CIRCLE[1:4] + CIRCLE[6:9], "sphere"), ([GRID[i] for i in (0, 1, 2, 4, 6, 7)], "cube")):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 6):
            yield {"s": [list(p) for p in s], "shape": shape, "n": n}
    for n in (1, 2, 3):
        for shape in ("sphere", "cube"):
            yield {"s": [[-1.0], [-0.5], [0.3]], "shape": shape, "n": n}


def r_improve(case):
    f = need("tranquilo.poisedness", "improve_poisedness")
    s = np.array(case["s"], float)
    keep = s.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, lams = f(sample=s, shape=case["shape"], maxiter=case["n"])
    out = []
    if not np.array_equal(s, keep):
        out.append("the sample is modified")
    cur, want = keep.copy(), []
    for _ in range(case["n"]):
        lam, arg, idx = constant(cur, case["shape"])
        want.append(lam)
        cur[idx] = arg
    if len(lams) != case["n"] or geo.err(lams, want) > 1e-3:
        out.append(f"the history of constants is {list(lams)} instead of {want}")
    elif geo.err(got, cur) > 1e-3:
        out.append("not exactly the reported points are replaced by the reported maximizers")
    return Res([f"{case}: {o}" for o in out], outcome=h64(case), states=[h64(case)], transitions=2 * case["n"], sample=case)


def c_logd(tier):
    for d in (1, 2, 3):
        regs = geo.spheres(d) + geo.cubes(d, small=True)
        for i, spec in enumerate(regs):
            yield {"spec": spec, "tier": tier}


def r_logd(case):
    f = need("tranquilo.geometry", "log_d_quality_calculator")
    spec = case["spec"]
    reg = geo.region(spec)
    d = len(spec["center"])
    _, cen, rad = geo.ref_frame(spec)
    base = geo.grid(d, [-1.0, 0.0, 0.5])
    viol, states, k = [], [], 0
    sizes = {1: (1, 2, 3), 2: (2, 3, 4), 3: (3,)}[d]
    for n in sizes:
        for ii in itertools.combinations(range(len(base)), n):
            z = base[list(ii)]
            xtx = z.T @ z
            det = np.linalg.det(xtx)
            x = cen + z * rad
            keep = x.copy()
            with np.errstate(all="ignore"):
                got = float(f(x, reg))
                got2 = float(f(x[::-1].copy(), reg))
            k += 2
            states.append(h64(spec, ii))
            if not np.array_equal(x, keep):
                viol.append("the sample is modified")
            scale = np.prod(np.maximum(np.diag(xtx), 1e-3))
            if det > 1e-9 * scale:
                want = np.log(det)
                if not abs(got - want) < 1e-6 or not abs(got2 - want) < 1e-6:
                    viol.append(f"{spec} sample {z.tolist()}: {got} / {got2} instead of {want}")
            elif got > -12:
                viol.append(f"{spec} sample {z.tolist()}: {got} for a singular sample")
        if viol:
            break
    return Res(viol[:2], outcome=h64(spec), states=states, transitions=k, sample=case)


SUBS = [
    Sub("constant", c_const, r_const, chunk=1, what="honesty and order invariance of the constant for all samples"),
    Sub("global", c_global, r_global, chunk=1, max_viol=1000, what="the constant is the maximum over all polynomials and the region"),
    Sub("improve", c_improve, r_improve, chunk=1, what="replacement histories"),
    Sub("log_d", c_logd, r_logd, what="all lattice samples x regions"),
]
