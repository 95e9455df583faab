"""P14: samplers."""
import itertools
import warnings

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of samplers x options x regions x sizes x sets of existing points x generator states on the real code, with independent references for region, hull and quality"
RULE = "one case = sampler x options x region with all sizes, existing sets and generator states; non-trivial: more than one new point or existing points"
ASSUMPTIONS = ["generator states 0..2 of numpy's default generator"]

SAMPLERS = {
    "random_interior": [{}],
    "random_hull": [{}, {"distribution": "normal"}, {"distribution": "uniform"}],
    "optimal_hull": [{}, {"criterion": "distance"}, {"criterion": "determinant"}, {"distribution": "uniform", "hardness": 5.5}, {"distribution": "normal", "hardness": 0.3},
                     {"n_points_randomsearch": 4}, {"n_points_randomsearch": 3, "criterion": "determinant"}, {"algo_options": {"maxiter": 1}}, {"algo_options": {"maxfun": 7}},
                     {"algorithm": "SLSQP"}, {"algorithm": "Nelder-Mead", "algo_options": {"maxiter": 5}}, {"return_info": True}],
}
EXISTING = ["none", "empty", "center", "hull", "dup", "many", "outside"]


class Rng:
    """Delegates to a generator and records what was drawn."""

    def __init__(self, seed):
        self.g = np.random.default_rng(seed)
        self.draws = []

    def __getattr__(self, name):
        f = getattr(self.g, name)
        if not callable(f):
            return f

        def wrapped(*a, **k):
            out = f(*a, **k)
            if isinstance(out, np.ndarray):
                self.draws.append(out.copy())
            return out

        return wrapped


def existing_unit(kind, d):
    if kind == "none":
        return None
    if kind == "empty":
        return np.zeros((0, d))
    if kind == "center":
        return np.zeros((1, d))
    if kind == "hull":
        return np.eye(d)[:1]
    if kind == "dup":
        return np.vstack([np.eye(d)[:1], np.eye(d)[:1], np.zeros((1, d))])
    if kind == "many":
        return np.vstack([np.zeros((1, d)), 0.7 * np.eye(d), -0.9 * np.eye(d), 0.05 * np.ones((1, d))])
    return np.vstack([2.5 * np.eye(d)[:1], -1.3 * np.eye(d)[-1:], np.zeros((1, d))])


def project(x, shape):
    n = np.linalg.norm(x, axis=1, ord=2 if shape == "sphere" else np.inf)
    return x / n[:, None]


def fekete(new, old):
    s = new if old is None or len(old) == 0 else np.vstack([new, old])
    return np.linalg.det(s.T @ s / len(new))


def cases(tier):
    for name, optlist in SAMPLERS.items():
        for i in range(len(optlist)):
            for d in (1, 2, 3):
                regs = geo.spheres(d, small=True) + geo.cubes(d, small=True)
                if tier == "quick" and name == "optimal_hull":
                    if d == 3:
                        regs = regs[1::9] + regs[-1:]
                    elif d == 2 and i > 2:
                        regs = regs[1::3]
                for spec in regs:
                    yield {"name": name, "opt": i, "d": d, "spec": spec, "tier": tier}


def r_sample(case):
    get = need("tranquilo.sample_points", "get_sampler")
    name, d, spec = case["name"], case["d"], case["spec"]
    opts = {k: dict(v) if isinstance(v, dict) else v for k, v in SAMPLERS[name][case["opt"]].items()}
    reg = geo.region(spec)
    shape, cen, rad = geo.ref_frame(spec)
    lb = np.full(d, -np.inf) if spec.get("lb") is None else np.array(spec["lb"], float)
    ub = np.full(d, np.inf) if spec.get("ub") is None else np.array(spec["ub"], float)
    viol, states, k = [], [], 0
    sampler = get(name, opts or None)
    quick = case["tier"] == "quick"
    for n in (1, 2, 4) if quick else (1, 2, 3, 4, 7):
        for kind in EXISTING:
            z = existing_unit(kind, d)
            ex = None if z is None else cen + z * rad
            for seed in (0, 1) if quick else (0, 1, 2):
                ctx = f"{name} {opts} {spec} n={n} existing={kind} seed={seed}"
                ex_in = None if ex is None else ex.copy()
                rng = Rng(seed)
                np.random.seed(3)
                glob = np.random.get_state()[1].copy()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    x = sampler(trustregion=reg, n_points=n, existing_xs=ex_in, rng=rng)
                info = None
                if opts.get("return_info"):
                    x, info = x
                x = np.asarray(x)
                k += 1
                states.append(h64(name, case["opt"], spec, n, kind, seed))
                if x.shape != (n, d):
                    viol.append(f"{ctx}: shape {x.shape}")
                    break
                if not np.isfinite(x).all():
                    viol.append(f"{ctx}: not finite {x.tolist()}")
                    break
                if ex is not None and not np.array_equal(ex, ex_in):
                    viol.append(f"{ctx}: the existing points are modified")
                if (x < lb).any() or (x > ub).any():
                    viol.append(f"{ctx}: outside of the bounds {x.tolist()}")
                u = (x - cen) / rad
                size = np.linalg.norm(u, axis=1) if shape == "sphere" else np.abs(u).max(axis=1)
                if (size > 1 + 1e-9).any():
                    viol.append(f"{ctx}: outside of the region, relative distance {size.max()}")
                if "hull" in name and (np.abs(size - 1) > 1e-9).any():
                    viol.append(f"{ctx}: not on the boundary, relative distance {size.min()}")
                if name != "optimal_hull" and n > 1 and d > 1 and len(np.unique(np.round(u, 9), axis=0)) < n:
                    viol.append(f"{ctx}: repeated points {x.tolist()}")
                if not np.array_equal(glob, np.random.get_state()[1]):
                    viol.append(f"{ctx}: the global random state is used")
                # quality
                if name == "optimal_hull":
                    crit = opts.get("criterion") or ("determinant" if n == 1 else "distance")
                    old = z
                    if z is not None and crit == "distance":
                        old = z[np.linalg.norm(z, axis=1) >= 0.1]
                    got = fekete(u, old)
                    best = None
                    for draw in rng.draws:
                        if draw.ndim >= 2 and draw.shape[-2:] == (n, d):
                            for c in draw.reshape(-1, n, d):
                                v = fekete(project(c, shape), old)
                                best = v if best is None else max(best, v)
                    if best is not None and got < best - 1e-9 * (1 + abs(best)):
                        viol.append(f"{ctx}: quality {got} is below the quality {best} of the random start")
                    if info is not None and abs(max(info["start_fekete"], info["opt_fekete"]) - got) > 1e-9 * (1 + got):
                        viol.append(f"{ctx}: the reported qualities {info['start_fekete']}, {info['opt_fekete']} do not include {got}")
                # a function of the generator state and the arguments
                for _ in range(1):
                    np.random.seed(8)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        x2 = get(name, opts or None)(trustregion=geo.region(spec), n_points=n, existing_xs=None if ex is None else ex.copy(), rng=np.random.default_rng(seed))
                    x2 = np.asarray(x2[0] if opts.get("return_info") else x2)
                    if not np.array_equal(x, x2):
                        viol.append(f"{ctx}: a repeated call gives another sample")
                if name != "optimal_hull" and kind not in ("none",):
                    # random samples do not depend on the existing points
                    x3 = np.asarray(sampler(trustregion=reg, n_points=n, existing_xs=None, rng=np.random.default_rng(seed)))
                    if not np.array_equal(x, x3):
                        viol.append(f"{ctx}: a random sample depends on the existing points")
            if len(viol) > 3:
                break
    if opts != SAMPLERS[name][case["opt"]]:
        viol.append(f"{name}: the options are modified: {opts}")
    return Res(viol[:3], outcome=h64(name, case["opt"], shape, d), states=states, transitions=k, sample=case)


def c_rot(tier):
    for d in (1, 2, 3):
        for name, optlist in SAMPLERS.items():
            for i in range(len(optlist) if name != "optimal_hull" else 0):
                yield {"name": name, "opt": i, "d": d}


def r_scale(case):
    """The unit sample does not depend on position and size of the region, only on its shape."""
    get = need("tranquilo.sample_points", "get_sampler")
    name, d = case["name"], case["d"]
    opts = SAMPLERS[name][case["opt"]]
    sampler = get(name, opts)
    viol, k, states = [], 0, []
    for shape in ("sphere", "cube"):
        if shape == "sphere":
            specs = [{"center": [0.0] * d, "radius": 1.0}, {"center": [4.0] * d, "radius": 0.125}, {"center": [-1.0, 7.0, 3.0][:d], "radius": 8.0}]
        else:
            specs = geo.cubes(d, small=True)[:6]
        for n, kind, seed in itertools.product((1, 2, 3), EXISTING, (0, 5)):
            ref = None
            for spec in specs:
                _, cen, rad = geo.ref_frame(spec)
                z = existing_unit(kind, d)
                x = sampler(trustregion=geo.region(spec), n_points=n, existing_xs=None if z is None else cen + z * rad, rng=np.random.default_rng(seed))
                u = (np.asarray(x) - cen) / rad
                k += 1
                states.append(h64(case, shape, n, kind, seed, spec))
                if ref is None:
                    ref = u
                elif np.abs(u - ref).max() > 1e-9:
                    viol.append(f"{name} {opts} n={n} existing={kind} seed={seed}: the unit sample depends on the position of the region {spec}")
        if viol:
            break
    return Res(viol[:2], outcome=h64(case), states=states, transitions=k, sample=case)


SUBS = [
    Sub("sample", cases, r_sample, chunk=1, what="all samplers x options x regions x sizes x existing points x generator states"),
    Sub("scale", c_rot, r_scale, chunk=1, what="random samplers: invariance to position and size of the region"),
]
