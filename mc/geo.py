"""Lattices of regions, points and polynomials shared by the component checks."""
import itertools

import numpy as np

from mc.core import need

INF = np.inf


def region(spec):
    """Region of the code under test from a JSON-able description."""
    Region = need("tranquilo.region", "Region")
    Bounds = need("tranquilo.bounds", "Bounds")
    b = None
    if spec.get("lb") is not None or spec.get("ub") is not None:
        lb = None if spec.get("lb") is None else np.array(spec["lb"], float)
        ub = None if spec.get("ub") is None else np.array(spec["ub"], float)
        b = Bounds(lb, ub)
    return Region(center=np.array(spec["center"], float), radius=float(spec["radius"]), bounds=b)


def ref_frame(spec):
    """Independent reference: shape, effective center and effective radius of a region."""
    c = np.array(spec["center"], float)
    r = float(spec["radius"])
    d = len(c)
    lb = np.full(d, -INF) if spec.get("lb") is None else np.array(spec["lb"], float)
    ub = np.full(d, INF) if spec.get("ub") is None else np.array(spec["ub"], float)
    if not ((c - lb <= r).any() or (ub - c <= r).any()):
        return "sphere", c, np.full(d, r)
    from math import gamma, pi

    vol = pi ** (d / 2) * r ** d / gamma(d / 2 + 1)
    half = vol ** (1 / d) / 2
    lo = np.maximum(c - half, lb)
    hi = np.minimum(c + half, ub)
    return "cube", (lo + hi) / 2, (hi - lo) / 2


def spheres(d, small=False):
    centers = [[0.0] * d, [1.0, -2.0, 0.5, -0.25][:d]]
    radii = [1.0, 0.25] if small else [1.0, 0.25, 3.0]
    return [{"center": c, "radius": r} for c in centers for r in radii]


def cubes(d, small=False):
    """Rectangular regions: full cubes and cubes clipped at different faces."""
    out = []
    c = [0.5, -1.0, 2.0, -0.25][:d]
    r = 0.8
    pats = ["n", "l", "u", "-", "f"] if not small else ["n", "l", "-"]
    tab = {"n": lambda x: (x - 0.3, x + 0.2), "l": lambda x: (x, x + 5), "u": lambda x: (x - 5, x), "-": lambda x: (-INF, INF), "f": lambda x: (x - 50, x + 50)}
    for p in itertools.product(pats, repeat=d):
        if set(p) <= {"-", "f"}:
            continue
        b = [tab[q](x) for q, x in zip(p, c)]
        out.append({"center": c, "radius": r, "lb": [x[0] for x in b], "ub": [x[1] for x in b]})
    return out


def grid(d, vals):
    return np.array(list(itertools.product(vals, repeat=d)), float)


def hess_lattice(d, diag, off):
    for dd in itertools.product(diag, repeat=d):
        for oo in itertools.product(off, repeat=d * (d - 1) // 2):
            h = np.diag(np.array(dd, float))
            for (i, j), v in zip(itertools.combinations(range(d), 2), oo):
                h[i, j] = h[j, i] = v
            yield h


def poly(intercept, g, h, z):
    """Reference value of a quadratic at the rows of z."""
    z = np.atleast_2d(z)
    out = intercept + z @ np.asarray(g, float)
    if h is not None:
        out = out + 0.5 * np.einsum("ni,ij,nj->n", z, np.asarray(h, float), z)
    return out


def err(a, b):
    """Largest deviation relative to the size of the reference."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return INF
    if a.size == 0:
        return 0.0
    if not np.isfinite(a).all():
        return INF
    return float(np.max(np.abs(a - b)) / (1.0 + np.max(np.abs(b))))


# ------------------------------------------------------------------------------ exact optimization of quadratics


def sphere_min(c, g, h):
    """Global minimum of c + g'x + x'hx/2 over the unit ball; returns (value, x)."""
    g = np.asarray(g, float)
    d = len(g)
    h = np.zeros((d, d)) if h is None else np.asarray(h, float)
    w, v = np.linalg.eigh((h + h.T) / 2)
    a = v.T @ g
    cand = [np.zeros(d)]
    big = max(np.abs(w).max(), np.linalg.norm(a), 1e-300)
    with np.errstate(all="ignore"):
        if w[0] > 0:
            z = -a / w
            n = np.linalg.norm(z)
            if n <= 1:
                cand.append(z)
            elif np.isfinite(n):
                cand.append(z / n)
        # hard case: zero component in the direction of the most negative curvature
        small = w - w[0] <= 1e-9 * big
        z = np.where(small, 0.0, -a / np.where(small, 1.0, w - w[0]))
        n = np.linalg.norm(z)
        if n <= 1:
            for s in (1.0, -1.0):
                y = z.copy()
                y[0] += s * np.sqrt(max(0.0, 1 - n * n))
                cand.append(y)
        # boundary: w + lam with lam > -w[0], bisection on the distance to the pole (log scale)
        lo, hi = np.log(1e-16 * big), np.log(4 * big + 4 * big * d)
        for _ in range(140):
            m = (lo + hi) / 2
            z = -a / (w - w[0] + np.exp(m))
            if not np.linalg.norm(z) <= 1:
                lo = m
            else:
                hi = m
        for m in (lo, hi):
            z = -a / (w - w[0] + np.exp(m))
            n = np.linalg.norm(z)
            if np.isfinite(n) and n > 0:
                cand.append(z / n)
    vals = [c + a @ z + 0.5 * (w * z * z).sum() for z in cand]
    k = int(np.argmin(vals))
    return float(vals[k]), v @ cand[k]


def cube_min(c, g, h):
    """Global minimum of c + g'x + x'hx/2 over [-1, 1]^d by enumeration of all faces; returns (value, x)."""
    g = np.asarray(g, float)
    d = len(g)
    h = np.zeros((d, d)) if h is None else np.asarray(h, float)
    best, arg = c, np.zeros(d)
    for p in itertools.product((-1.0, 0.0, 1.0), repeat=d):
        x = np.array(p)
        fr = np.flatnonzero(x == 0)
        if len(fr):
            rhs = -(g[fr] + h[np.ix_(fr, np.arange(d))] @ x)
            s = np.linalg.lstsq(h[np.ix_(fr, fr)], rhs, rcond=1e-12)[0]
            if (np.abs(s) > 1 + 1e-12).any():
                continue
            x[fr] = np.clip(s, -1, 1)
        val = c + g @ x + 0.5 * x @ h @ x
        if val < best:
            best, arg = float(val), x
    return float(best), arg
