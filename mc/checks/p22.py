"""P22: exploration samples."""
import itertools

import numpy as np

from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the argument lattice of the real sampling function, with the guarantees checked on every sample and an independent reference for the scaling"
RULE = "one case = method x distribution x dimension x bounds with all sizes, start positions and seeds; non-trivial: at least two samples"
ASSUMPTIONS = ["the low discrepancy generators of scipy.stats.qmc are correct"]
METHODS = ["sobol", "halton", "latin_hypercube", "random"]
DISTS = ["uniform", "triangular"]
BOUNDS = {"a": (0.0, 1.0), "b": (-3.0, 5.0), "c": (100.0, 100.5), "d": (-1e6, -1e-3)}


def call(**kw):
    return need("tranquilo.exploration_sample", "draw_exploration_sample")(**kw)


def args(pats, pos, n, dist, method, seed):
    lo = np.array([BOUNDS[p][0] for p in pats])
    hi = np.array([BOUNDS[p][1] for p in pats])
    x = lo + pos * (hi - lo)
    return {"x": x, "lower": lo, "upper": hi, "n_samples": n, "sampling_distribution": dist, "sampling_method": method, "seed": seed}


def tri_cdf(v, lo, hi, x):
    """CDF of the triangular distribution with mode x."""
    with np.errstate(all="ignore"):
        left = (v - lo) ** 2 / ((hi - lo) * (x - lo))
        right = 1 - (hi - v) ** 2 / ((hi - lo) * (hi - x))
    return np.where(v <= x, np.where(x > lo, left, 0.0), np.where(hi > x, right, 1.0))


def cases(tier):
    for d in (1, 2, 3):
        for pats in itertools.product("abcd" if d < 3 else "abd", repeat=d):
            for m in METHODS:
                for dist in DISTS:
                    yield {"d": d, "pats": "".join(pats), "method": m, "dist": dist}
    for m in METHODS:
        for dist in DISTS:
            yield {"d": 6, "pats": "abcdab", "method": m, "dist": dist}


def r_sample(case):
    d, pats, m, dist = case["d"], case["pats"], case["method"], case["dist"]
    viol, states, k = [], [], 0
    lo = np.array([BOUNDS[p][0] for p in pats])
    hi = np.array([BOUNDS[p][1] for p in pats])
    for n in (1, 2, 3, 4, 7, 8, 16, 27, 64):
        for pos in (0.5, 0.1, 0.0, 1.0):
            ref = None
            for seed in (0, 1, 1234):
                a = args(pats, pos, n, dist, m, seed)
                keep = {q: np.copy(v) for q, v in a.items() if isinstance(v, np.ndarray)}
                ctx = f"{m} {dist} bounds={pats} n={n} position={pos} seed={seed}"
                np.random.seed(7)
                before = np.random.get_state()[1].copy()
                s = np.asarray(call(**a))
                k += 1
                states.append(h64(case, n, pos, seed))
                if any(not np.array_equal(a[q], v) for q, v in keep.items()):
                    viol.append(f"{ctx}: the arguments are modified")
                if s.shape != (n, d):
                    viol.append(f"{ctx}: shape {s.shape}")
                    break
                tol = 1e-12 * (np.abs(lo) + np.abs(hi))
                if not np.isfinite(s).all() or (s < lo - tol).any() or (s > hi + tol).any():
                    viol.append(f"{ctx}: a point is outside of the bounds")
                    break
                np.random.seed(99)
                np.random.random(3)
                s2 = np.asarray(call(**args(pats, pos, n, dist, m, seed)))
                np.random.seed(7)
                if not np.array_equal(s, s2):
                    viol.append(f"{ctx}: the sample is not reproducible")
                if not np.array_equal(before, np.random.get_state()[1]):
                    viol.append(f"{ctx}: the global random state is changed")
                # position of the sample in the distribution
                if dist == "uniform":
                    u = (s - lo) / (hi - lo)
                else:
                    x = lo + pos * (hi - lo)
                    u = tri_cdf(s, lo, hi, x)
                if m == "latin_hypercube":
                    strata = np.sort(np.clip(np.floor(u * n + 0.0), 0, n - 1), axis=0)
                    frac = u * n
                    near = np.abs(frac - np.round(frac)) < 1e-5
                    if not near.any() and not (strata == np.arange(n)[:, None]).all():
                        viol.append(f"{ctx}: a coordinate is not stratified")
                elif m in ("sobol", "halton"):
                    # low discrepancy: the empirical distribution of each coordinate is close to the distribution
                    us = np.sort(u, axis=0)
                    grid = (np.arange(n)[:, None] + 0.5) / n
                    disc = np.abs(us - grid).max(axis=0)
                    lim = (2 + np.log2(n + 1)) / (n + 1)
                    if (disc > min(0.75, lim) + 1e-5).any():
                        viol.append(f"{ctx}: discrepancy {disc.max():.3f} of a coordinate, limit {lim:.3f}")
                    if n > 1 and d < 6 and (np.diff(us, axis=0) <= 0).any():
                        viol.append(f"{ctx}: repeated coordinates")
                    if m == "sobol" and (u <= 0).any():
                        viol.append(f"{ctx}: the lower bound is part of the sample")
                if n > 1 and len(np.unique(s, axis=0)) < n:
                    viol.append(f"{ctx}: repeated points")
                # random and latin hypercube samples depend on the seed, the others do not
                if ref is None:
                    ref = s
                elif m in ("random", "latin_hypercube") and np.array_equal(ref, s):
                    viol.append(f"{ctx}: the seed has no effect")
        # the same unit sample under another distribution or other bounds: only the scaling differs
        if dist == "triangular":
            for pos in (0.5, 0.1, 0.0, 1.0):
                base = np.asarray(call(**args("a" * d, 0.5, n, "uniform", m, 1)))
                s = np.asarray(call(**args(pats, pos, n, dist, m, 1)))
                k += 2
                x = lo + pos * (hi - lo)
                u = tri_cdf(s, lo, hi, x)
                if np.abs(u - base).max() > 1e-6:
                    viol.append(f"{m} n={n} position={pos} bounds={pats}: the triangular sample does not have its mode at the start point")
        else:
            base = np.asarray(call(**args("a" * d, 0.5, n, "uniform", m, 1)))
            s = np.asarray(call(**args(pats, 0.3, n, dist, m, 1)))
            k += 2
            if np.abs((s - lo) / (hi - lo) - base).max() > 1e-6:
                viol.append(f"{m} n={n} bounds={pats}: the uniform sample is not scaled linearly")
        if len(viol) > 3:
            break
    return Res(viol[:3], outcome=h64(m, dist, d), states=states, transitions=k, sample=case)


def c_err(tier):
    for d in (1, 2, 3):
        for kind in ("method", "dist", "lower", "upper", "nan"):
            yield {"d": d, "kind": kind}


def r_err(case):
    d, kind = case["d"], case["kind"]
    viol, k = [], 0
    for m in METHODS:
        for dist in DISTS:
            if kind in ("method", "dist"):
                for bad in ("", "Sobol", "sobo", "uniform_", "normal", "sobol " , None, 3):
                    a = args("a" * d, 0.5, 4, dist, m, 1)
                    a["sampling_method" if kind == "method" else "sampling_distribution"] = bad
                    viol += expect_error(a, f"{kind}={bad!r}")
                    k += 1
            else:
                for j in range(d):
                    a = args("a" * d, 0.5, 4, dist, m, 1)
                    if kind == "nan":
                        a["upper"][j] = np.nan
                    else:
                        a[kind][j] = -np.inf if kind == "lower" else np.inf
                    viol += expect_error(a, f"{m} {dist}: {kind} bound of coordinate {j} is not finite")
                    k += 1
    return Res(viol[:3], outcome=kind, transitions=k, states=[h64(case)], sample=case)


def expect_error(a, what):
    try:
        call(**a)
    except ValueError:
        return []
    except Exception as e:
        return [f"{what}: {type(e).__name__} instead of a ValueError"]
    return [f"{what}: accepted"]


def c_gen(tier):
    for m in METHODS:
        for dist in DISTS:
            yield {"method": m, "dist": dist}


def r_gen(case):
    """Seeds of all kinds: integers, generators and None."""
    viol, k = [], 0
    for n in (1, 5, 16):
        s = [np.asarray(call(**args("ab", 0.5, n, case["dist"], case["method"], np.random.default_rng(3)))) for _ in range(2)]
        k += 2
        if not np.array_equal(*s):
            viol.append(f"{case} n={n}: equal generators give different samples")
        s0 = np.asarray(call(**args("ab", 0.5, n, case["dist"], case["method"], None)))
        if s0.shape != (n, 2):
            viol.append(f"{case} n={n}: no seed gives shape {s0.shape}")
    get_rng = need("tranquilo.utilities", "get_rng")
    g = np.random.default_rng(5)
    if get_rng(g) is not g:
        viol.append("get_rng: a generator is not passed through")
    for seed in (0, 1, 99):
        if get_rng(seed).random() != np.random.default_rng(seed).random():
            viol.append(f"get_rng({seed}) is not the generator with that seed")
    for bad in ("a", 1.5, [1], object()):
        try:
            get_rng(bad)
            viol.append(f"get_rng({bad!r}) is accepted")
        except TypeError:
            pass
    return Res(viol[:3], outcome=case["method"], transitions=k, states=[h64(case)], sample=case)


SUBS = [
    Sub("sample", cases, r_sample, what="all methods x distributions x bounds x sizes x positions x seeds"),
    Sub("errors", c_err, r_err, what="invalid methods, distributions and bounds"),
    Sub("generators", c_gen, r_gen, what="all kinds of seeds"),
]
