"""P10: noise handling - averages, variances and sample sizes."""
import itertools
import math

import numpy as np
from scipy.stats import norm

from mc import driver, geo
from mc import oracles
from mc.core import Res, Sub, h64, need
from mc.driver import deviation_sets
from mc.runs import FT, product_cfg, run_case

LEVEL = "model_checking"
TECHNIQUE = "explicit exploration of noisy optimizations over all noise/failure patterns with bounded deviations, and exhaustive lattices of the sample size, adaptation and variance rules on the real code"
RULE = ("noisy runs: configurations x evaluation answers; rules: complete argument lattices and all small evaluation histories against independent references; "
        "non-trivial: at least one iteration / a result that is not at a limit")
ASSUMPTIONS = ["numba runs in interpreted mode", "real sample sizes within 1e-9 of an integer may be rounded either way"]
NO = {"disable_convergence": True}


# ------------------------------------------------------------------------------ acceptance sample sizes


def ref_sizes(sigma, n_old, ei, power, conf, n_min, n_max):
    """Allowed ranges (lo, hi) for the two sample sizes.

    The difference of the two averages must have a standard deviation of at most
    effect / (z_conf + z_power); without enough existing evaluations both points get the same size.
    """
    z = norm.ppf(conf) + norm.ppf(power)
    var_max = (max(ei, 1e-8) / z) ** 2
    equal = 2 * sigma ** 2 / var_max
    if n_old <= equal:
        a, b = equal - n_old, equal
    else:
        a = 0.0
        b = sigma ** 2 / (var_max - sigma ** 2 / n_old)

    def ceil_range(v, lo, hi):
        out = []
        for f in (1 - 1e-9, 1 + 1e-9):
            out.append(int(math.ceil(min(max(v * f, lo), hi))))
        return min(out), max(out)

    return ceil_range(a, 0, max(0, n_max - n_old)), ceil_range(b, n_min, max(n_max, n_min) if n_max < n_min else n_max)


def c_sizes(tier):
    for sigma in (0.0, 1e-3, 0.05, 0.3, 1.0, 4.0):
        for n_old in (1, 2, 3, 4, 5, 7, 10, 16, 20, 49, 50, 51, 80):
            yield {"sigma": sigma, "n_old": n_old}


def r_sizes(case):
    f = need("tranquilo.acceptance_sample_size", "get_acceptance_sample_sizes")
    viol, k, states, inner = [], 0, [], 0
    for ei in (0.0, 1e-12, 1e-4, 0.05, 0.2, 0.5, 1.0, 1.7, 5.0, 100.0):
        for power in (0.6, 0.8, 0.95):
            for conf in (0.6, 0.9, 0.99):
                for n_min, n_max in ((1, 5), (4, 50), (1, 1), (3, 8), (4, 4), (2, 1000)):
                    got = f(sigma=case["sigma"], existing_n1=case["n_old"], expected_improvement=ei, power_level=power, confidence_level=conf, n_min=n_min, n_max=n_max)
                    k += 1
                    states.append(h64(case, ei, power, conf, n_min, n_max))
                    r1, r2 = ref_sizes(case["sigma"], case["n_old"], ei, power, conf, n_min, n_max)
                    inner += r2[0] > n_min and r2[0] < n_max
                    if not (r1[0] <= got[0] <= r1[1] and r2[0] <= got[1] <= r2[1]) or int(got[0]) != got[0] or int(got[1]) != got[1]:
                        viol.append(f"sigma={case['sigma']} existing={case['n_old']} expected improvement={ei} power={power} confidence={conf} limits=({n_min},{n_max}): "
                                    f"{got} instead of {r1[0]}, {r2[0]}")
    return Res(viol[:3], nontrivial=inner > 0 or case["sigma"] == 0, outcome=h64(case["sigma"], case["n_old"]), states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ adaptation rule


def ref_adjust(n, rho, noise, o):
    noise = np.asarray(noise)
    m = len(noise)
    if sum(v > o["high_rho"] for v in noise) / m > o["min_share_high_rho"]:
        return max(n - 1, o["min_n_evals"])
    if sum(v > o["low_rho"] for v in noise) / m > o["min_share_low_rho"] or rho >= o["good_rho_threshold"]:
        return n
    return min(n + 1, o["max_n_evals"])


OPTS = [
    {}, {"min_n_evals": 2, "max_n_evals": 4}, {"high_rho": 0.5, "low_rho": 0.25, "min_share_high_rho": 0.5, "min_share_low_rho": 0.5, "good_rho_threshold": 0.25},
    {"min_share_high_rho": 0.25, "min_share_low_rho": 0.75, "max_n_evals": 3}, {"good_rho_threshold": 2.0}, {"min_share_high_rho": 0.0, "min_share_low_rho": 0.0},
    {"min_n_evals": 3, "max_n_evals": 3},
]


def c_adjust(tier):
    for i in range(len(OPTS)):
        for m in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            yield {"opt": i, "m": m}


def r_adjust(case):
    f = need("tranquilo.adjust_n_evals", "adjust_n_evals")
    NA = need("tranquilo.options", "NoiseAdaptationOptions")
    o = NA(**OPTS[case["opt"]])
    od = o._asdict()
    viol, k, states, outs = [], 0, [], set()
    for noise in itertools.product([-np.inf, 0.1, 0.25, 0.3, 0.5, 0.6, 0.9, np.inf], repeat=case["m"]):
        for rho in (-np.inf, -1.0, 0.05, 0.1, 0.25, 0.5, 2.0, np.inf):
            for n in range(od["min_n_evals"], min(od["max_n_evals"], 6) + 1):
                want = ref_adjust(n, rho, noise, od)
                got = f(n_evals=n, rho=rho, rho_noise=np.array(noise), options=o)
                k += 1
                outs.add(want - n)
                if got[0] != want or bool(got[1]) != (want > n):
                    viol.append(f"n={n} rho={rho} simulated={noise} options={OPTS[case['opt']]}: {got} instead of {(want, want > n)}")
        states.append(h64(case, noise))
        if viol:
            break
    return Res(viol[:3], outcome=h64(sorted(outs)), states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ variance


def ref_variance(points, center, radius, factor, min_n, vector, nres, ft):
    """points: list of (x, [fvec, ...])"""
    use = []
    for x, fv in points:
        if np.linalg.norm(np.asarray(x) - center) <= radius * factor:
            ok = [np.atleast_1d(v) for v in fv if np.isfinite(v).all()]
            use.append(ok)
    top = max([len(u) for u in use] + [0])
    cut = max(min(top, min_n), 2)
    use = [np.array(u) for u in use if len(u) >= cut]
    if not use:
        return np.zeros((nres, nres)) if vector else 0.0
    w = np.array([len(u) for u in use], float)
    w /= w.sum()
    out = 0.0
    for wi, u in zip(w, use):
        if vector:
            dev = u - u.mean(axis=0)
            out = out + wi * dev.T @ dev / (len(u) - 1)
        else:
            vals = np.array([driver.aggregate(ft, v) for v in u])
            out = out + wi * ((vals - vals.mean()) ** 2).sum() / (len(u) - 1)
    return out


PATTERNS = {
    "1": [0.0], "2": [1.0, 3.0], "3": [0.0, 1.0, 5.0], "c": [2.0, 2.0, 2.0], "i": [np.inf], "j": [np.inf, 2.0], "k": [1.0, np.inf, 4.0],
    "m": [np.inf, np.inf], "5": [0.0, 3.0, 1.0, 1.0, 2.0], "n": [-np.inf, 1.0, 2.0],
}


def c_variance(tier):
    for ft in FT:
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for pats in itertools.product(PATTERNS if n < 3 or tier != "quick" else "123jk5", repeat=n):
                yield {"ft": ft, "pats": "".join(pats)}


def r_variance(case):
    History = need("tranquilo.history", "History")
    get = need("tranquilo.estimate_variance", "get_variance_estimator")
    ft = case["ft"]
    nres = 1 if ft == "scalar" else 2
    viol, states, k = [], [], 0
    for shape in ("sphere", "cube"):
        for layout in ("in", "out"):
            h = History(functype=ft)
            pts = []
            rows = []
            for i, p in enumerate(case["pats"]):
                x = np.array([0.1 * i, -0.05 * i]) if layout == "in" or i != 1 else np.array([50.0, 0.0])
                idx = h.add_xs(x)
                fv = []
                for r, v in enumerate(PATTERNS[p]):
                    if ft == "scalar":
                        fv.append(v + 0.0)
                    else:
                        fv.append(np.array([v, (v + r * r) * 0.5 - 1 + i]) if np.isfinite(v) else np.array([v, 1.0]) if r % 2 else np.array([1.0, v]))
                pts.append((x, fv))
                rows += [(idx, r, f) for r, f in enumerate(fv)]
            # evaluations arrive interleaved
            for idx, _, f in sorted(rows, key=lambda t: t[1]):
                h.add_evals(idx, f if ft == "scalar" else np.atleast_2d(f))
            reg = geo.region({"center": [0.0, 0.0], "radius": 1.0, **({"lb": [-0.5, -9.0], "ub": [9.0, 9.0]} if shape == "cube" else {})})
            for opts in ({}, {"min_n_evals": 2}, {"min_n_evals": 5}, {"max_distance_factor": 0.12}, {"max_distance_factor": 100.0, "min_n_evals": 4}):
                for mt in ("scalar", "vector"):
                    est = get("classic", opts)
                    ctx = f"{ft} evaluations {case['pats']} layout={layout} {shape} options={opts} {mt}"
                    got = est(trustregion=reg, history=h, model_type=mt)
                    want = ref_variance(pts, np.zeros(2), 1.0, opts.get("max_distance_factor", 3.0), opts.get("min_n_evals", 3), mt == "vector", nres, ft)
                    k += 1
                    g = np.asarray(got, float)
                    if mt == "vector":
                        g = g.reshape(nres, nres) if g.size == nres * nres else g
                    if geo.err(g, want) > 1e-9:
                        viol.append(f"{ctx}: {g.tolist()} instead of {np.asarray(want).tolist()}")
                    states.append(h64(case, shape, layout, opts, mt))
    return Res(viol[:2], nontrivial=len(set(case["pats"]) - {"1", "i"}) > 0, outcome=h64(case["pats"]), states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ simulated improvement ratios


class FakeRng:
    """Records the requested distribution and returns a prescribed sequence of draws."""

    def __init__(self, draws):
        self.draws = draws
        self.calls = []

    def multivariate_normal(self, mean, cov, size=None, **kw):
        self.calls.append((np.array(mean), np.array(cov), size))
        n = int(np.prod(np.atleast_1d(size)))
        m = len(mean)
        flat = np.resize(np.asarray(self.draws, float), n * m)
        return flat.reshape(*np.atleast_1d(size), m)


def c_rho(tier):
    for d in (1, 2):
        for agg in ("least_squares_linear", "information_equality_linear", "identity"):
            for reg in range(3):
                for n_draws in (1, 2, 5):
                    for ign in (True, False):
                        yield {"d": d, "agg": agg, "reg": reg, "n_draws": n_draws, "ign": ign}


def r_rho(case):
    sim = need("tranquilo.rho_noise", "simulate_rho_noise")
    NA = need("tranquilo.options", "NoiseAdaptationOptions")
    Sol = need("tranquilo.solve_subproblem", "SubproblemResult")
    VM = need("tranquilo.models", "VectorModel")
    d, agg = case["d"], case["agg"]
    mt = "quadratic" if agg == "identity" else "linear"
    nres = 1 if agg == "identity" else 2
    spec = [{"center": [0.0] * d, "radius": 1.0}, {"center": [3.0, -1.0][:d], "radius": 0.2},
            {"center": [0.5, -1.0][:d], "radius": 0.8, "lb": [0.4, -50.0][:d], "ub": [30.0, -0.9][:d]}][case["reg"]]
    reg = geo.region(spec)
    _, cen, rad = geo.ref_frame(spec)
    z = np.vstack([np.zeros(d), 0.9 * np.eye(d), -0.8 * np.eye(d), 0.5 * np.ones((1, d)) * np.array([1.0, -1.0][:d])])
    aggf = need("tranquilo.aggregate_models", "get_aggregator")(agg)
    fit = need("tranquilo.fit_models", "get_fitter")("ols", None, mt, False, "relative")
    viol, k, states = [], 0, []
    n_draws = case["n_draws"]
    center_unit = (np.array(spec["center"]) - cen) / rad

    def predict(model, pts):
        v = geo.poly(0.0, np.zeros(d), None, pts)[:, None] + model.intercepts + pts @ model.linear_terms.T
        if model.square_terms is not None:
            v = v + 0.5 * np.einsum("ni,rij,nj->nr", pts, model.square_terms, pts)
        if agg == "identity":
            return v[:, 0]
        if agg == "least_squares_linear":
            return (v ** 2).sum(axis=1)
        return v.sum(axis=1) - 0.25 * ((pts @ model.linear_terms.T) ** 2).sum(axis=1)

    for gi, g in enumerate(itertools.product([-1.0, 0.0, 2.0], repeat=d * nres)):
        G = np.array(g).reshape(nres, d)
        H = None if mt == "linear" else np.array([np.eye(d) * (1.0 + gi % 2)])
        true = VM(np.arange(nres) * 1.0 + 0.5, G, H, scale=reg.effective_radius, shift=reg.effective_center)
        fv = np.asarray(true.predict(z))
        cov = np.array([[0.04]]) if nres == 1 else np.array([[0.04, 0.01], [0.01, 0.09]])
        for draws in ([0.0], [0.3, -0.2, 0.05, 0.0, 0.7, -0.6, 0.11]):
            rng = FakeRng(draws)
            got_fits, got_subs = [], []

            def my_fit(x, y, weights=None, region=None, old_model=None):
                got_fits.append((np.array(x), np.array(y)))
                return fit(x, y, weights=weights, region=region, old_model=old_model)

            def my_solver(model, trustregion):
                u = -np.asarray(model.linear_terms)
                nrm = np.linalg.norm(u)
                u = u / nrm * 0.7 if nrm > 0 else np.zeros(d)
                ei = float(model.predict(center_unit) - model.predict(u))
                got_subs.append((u, ei))
                return Sol(x=trustregion.map_from_unit(u), expected_improvement=ei, n_iterations=1, success=True, x_unit=u, shape=trustregion.shape)

            out = sim(xs=cen + rad * z, vector_model=true, old_vector_model=None, trustregion=reg, noise_cov=cov, model_fitter=my_fit,
                      model_aggregator=aggf, subsolver=my_solver, rng=rng, options=NA(rho_noise_n_draws=n_draws, ignore_corelation=case["ign"]))
            k += 1
            states.append(h64(case, g, len(draws)))
            ctx = f"{case} G={G.tolist()} draws={draws}"
            out = np.asarray(out, float)
            if out.shape != (n_draws,) or len(got_fits) != n_draws:
                viol.append(f"{ctx}: {out.shape} ratios from {len(got_fits)} fits")
                break
            mean, c, size = rng.calls[0]
            want_cov = np.diag(np.diag(cov)) if case["ign"] else cov
            if np.any(mean != 0) or not np.allclose(c, want_cov):
                viol.append(f"{ctx}: noise is drawn with mean {mean.tolist()} and covariance {c.tolist()}")
            noise = np.concatenate([fits[1] - fv for fits in got_fits])
            want_noise = np.resize(np.asarray(draws), n_draws * len(z) * nres).reshape(-1, nres)
            if geo.err(np.sort(noise.ravel()), np.sort(want_noise.ravel())) > 1e-9:
                viol.append(f"{ctx}: the simulated data are not the model's predictions plus the noise")
            f0 = predict(true, center_unit[None])[0]
            for (u, ei), r in zip(got_subs, out):
                imp = f0 - predict(true, u[None])[0]
                want = imp / ei if ei != 0 else (np.inf if imp > 0 else -np.inf)
                if not (r == want or abs(r - want) <= 1e-6 * (1 + abs(want)) or abs(ei) < 1e-9):
                    viol.append(f"{ctx}: simulated ratio {r} instead of {want}")
                if draws == [0.0] and abs(ei) > 1e-6 and not abs(r - 1) < 1e-6:
                    viol.append(f"{ctx}: ratio {r} without noise")
        if viol:
            break
    return Res(viol[:2], outcome=h64(case), states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ noisy runs

ACC_DEFAULT = {"confidence_level": 0.95, "power_level": 0.95, "n_min": 4, "n_max": 50, "min_improvement": 0.0}
NA_DEFAULT = {"min_n_evals": 1, "max_n_evals": 30, "good_rho_threshold": 0.1}


def noise(run):
    out = []
    S, o = run.states, run.cfg["opts"]
    na = {**NA_DEFAULT, **(o.get("noise_adaptation_options") or {})}
    ao = {**ACC_DEFAULT, **(o.get("acceptance_decider_options") or {})}
    ve = {"max_distance_factor": 3.0, "min_n_evals": 3, **(o.get("variance_estimator_options") or {})}
    start = o.get("n_evals_per_point") or na["min_n_evals"]
    n0 = o.get("n_evals_at_start") or 5
    batch = o.get("batch_size") or 1
    n0 = -(-n0 // batch) * batch  # start evaluations fill complete batches
    calls = run.env.calls
    if not all(np.array_equal(c[0], run.x0) for c in calls[:n0]) or run.be.batches[0]["n"] != n0:
        out.append(f"the start point is evaluated {run.be.batches[0]['n']} times instead of {n0}")
    h = run.history
    xs = [np.array(h.get_xs(i)) for i in range(h.get_n_xs())]
    index = {}
    for i, x in enumerate(xs):
        index.setdefault(x.tobytes(), i)
    if len(index) < len(xs):
        return out  # identical points: answers cannot be attributed
    # one-step rule of the number of evaluations
    ns = [s.n_evals_per_point for s in S[1:]]
    if ns and ns[0] != start:
        out.append(f"the first iteration uses {ns[0]} evaluations per point instead of {start}")
    for i in range(1, len(ns)):
        if abs(ns[i] - ns[i - 1]) > 1:
            out.append(f"iteration {i + 1}: evaluations per point jump from {ns[i - 1]} to {ns[i]}")
        if na["min_n_evals"] <= start <= na["max_n_evals"] and not na["min_n_evals"] <= ns[i] <= na["max_n_evals"]:
            out.append(f"iteration {i + 1}: {ns[i]} evaluations per point are outside of [{na['min_n_evals']}, {na['max_n_evals']}]")
        mode = run.cfg.get("mode")
        rho = float(S[i].rho)
        want = None
        if mode == "down":
            want = max(ns[i - 1] - 1, na["min_n_evals"])
        elif mode == "up":
            want = ns[i - 1] if rho >= na["good_rho_threshold"] else min(ns[i - 1] + 1, na["max_n_evals"])
        elif mode == "keep":
            want = ns[i - 1]
        if want is not None and ns[i] != want:
            out.append(f"iteration {i + 1}: {ns[i]} evaluations per point after {ns[i - 1]} and ratio {rho}, instead of {want}")
    accs = [e for e in run.tap.events if e["kind"] == "accept"]
    naive = run.cfg.get("decider") == "naive_noisy"
    for it, e in enumerate(accs, start=1):
        tag = f"iteration {it}: "
        s = S[it]
        evals = {}
        for x, ans, _ in calls[: e["n_fun_before"]]:
            evals.setdefault(index[x.tobytes()], []).append(driver.stored(run.cfg["functype"], ans) if ans is not None else None)
        for i in np.atleast_1d(s.model_indices).astype(int):
            if len(evals.get(int(i), [])) < s.n_evals_per_point:
                out.append(tag + f"model point {i} has {len(evals.get(int(i), []))} evaluations, {s.n_evals_per_point} are required")
                break
        # noise variance
        nres = np.atleast_1d(calls[0][1]).size
        pts = [(xs[i], [np.full(nres, np.inf) if v is None or v.dtype == object else v for v in fv]) for i, fv in evals.items()]
        want = ref_variance(pts, np.asarray(e["state"].trustregion.center), e["state"].trustregion.radius, ve["max_distance_factor"], ve["min_n_evals"], False, nres, run.cfg["functype"])
        if not (abs(float(e["noise_variance"]) - want) <= 1e-7 * (abs(want) + 1e-12)):
            out.append(tag + f"noise variance {e['noise_variance']} instead of {want}")
        # requested evaluations
        cur, cand = int(e["state"].index), int(e["result"].candidate_index)
        req = {int(k): int(v) for r in e["requests"] for k, v in r.items()}
        if len(e["requests"]) != 1:
            out.append(tag + f"{len(e['requests'])} batches in an acceptance step")
        new = e["n_xs_before"]
        if naive:
            r1, r2 = (0, 0), (10, 10)
        else:
            r1, r2 = ref_sizes(math.sqrt(max(want, 0.0)), len(evals.get(cur, [])), float(e["sol"].expected_improvement), ao["power_level"], ao["confidence_level"], ao["n_min"], ao["n_max"])
        if not r1[0] <= req.get(cur, 0) <= r1[1]:
            out.append(tag + f"{req.get(cur, 0)} additional evaluations of the current point instead of {r1[0]}")
        if not r2[0] <= req.get(new, 0) <= r2[1]:
            out.append(tag + f"{req.get(new, 0)} evaluations of the candidate instead of {r2[0]}")
        if e["result"].n_evals_acceptance != req.get(new, 0) or s.n_evals_acceptance != req.get(new, 0):
            out.append(tag + f"n_evals_acceptance is {s.n_evals_acceptance}, {req.get(new, 0)} were requested")
        if not np.array_equal(xs[new], np.asarray(e["sol"].x)):
            out.append(tag + "the candidate is not the solution of the subproblem")
        # averages
        ft = run.cfg["functype"]
        fv = {cur: [], new: []}
        for x, ans, _ in calls[: e["n_fun_after"]]:
            j = index[x.tobytes()]
            if j in fv:
                fv[j].append(np.inf if ans is None or ans.dtype == object else driver.aggregate(ft, driver.stored(ft, ans)))
        with np.errstate(all="ignore"):
            a = float(np.mean(fv[cur])) if not naive else float(e["state"].fval)
            b = float(np.mean(fv[new])) if fv[new] else np.nan
            imp = a - b
        acc = bool(np.isfinite(b) and imp >= ao["min_improvement"])
        margin = abs(imp - ao["min_improvement"]) <= 1e-12 * (1 + abs(a) + abs(b)) if np.isfinite(imp) else False
        if bool(s.accepted) != acc and not margin:
            out.append(tag + f"accepted={s.accepted} although the averages are {a} and {b}")
        if s.accepted:
            if not oracles.close(float(s.fval), b, 1e-10) or int(s.index) != new:
                out.append(tag + f"accepted value {s.fval} instead of the average {b}")
        else:
            if int(s.index) != cur or not np.array_equal(s.x, e["state"].x) or float(s.fval) != float(e["state"].fval):
                out.append(tag + "a rejected step changes the current point")
        if np.isfinite(b) and np.isfinite(imp):
            ei = float(e["sol"].expected_improvement)
            rho = imp / ei if ei != 0 else (np.inf if imp > 0 else -np.inf)
            if not (rho == float(s.rho) or abs(rho - float(s.rho)) <= 1e-6 * (1 + abs(rho)) or margin or abs(ei) < 1e-12):
                out.append(tag + f"ratio {s.rho} instead of {rho}")
        if out:
            break
    return out


MODES = {
    None: {}, "up": {"low_rho": 1e300, "high_rho": 1e300, "good_rho_threshold": 0.5}, "down": {"high_rho": -1e300, "min_share_high_rho": -0.5},
    "keep": {"high_rho": 1e300, "min_share_low_rho": -0.5}, "always_up": {"low_rho": 1e300, "high_rho": 1e300, "good_rho_threshold": 1e300},
}


def run(cfg):
    cfg = dict(cfg)
    return run_case({**cfg, "tap": True}, [noise])


def c_runs(tier):
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"], base=["quad", "sin"], jitter=[0.0, 0.05, 1.0], opts1=[{**NO, "noisy": True}],
                           cfg1=[{"mode": m} for m in (None, "up", "down", "keep", "always_up")],
                           opts2=[{"acceptance_decider_options": a} for a in ({"n_max": 6}, {"n_max": 12, "n_min": 2, "confidence_level": 0.7, "power_level": 0.6})]):
        m = cfg["mode"]
        na = {"rho_noise_n_draws": 2, **MODES[m]}
        if m == "always_up":
            cfg["mode"] = "up"
            na["max_n_evals"] = 3
        if m == "down":
            cfg["opts"]["n_evals_per_point"] = 4
            na["min_n_evals"] = 2
        cfg["opts"] = {**cfg["opts"], "noise_adaptation_options": na}
        if tier == "quick" and cfg["base"] == "sin" and m in ("keep", None) and cfg["jitter"] == 0.0:
            continue
        yield {**cfg, "iters": 5 if tier == "quick" else 10}


def c_options(tier):
    for cfg in product_cfg(functype=FT, jitter=[0.3], opts1=[{**NO, "noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 2}}],
                           opts2=[{"n_evals_at_start": 1}, {"n_evals_at_start": 3, "n_evals_per_point": 2}, {"variance_estimator_options": {"max_distance_factor": 1.0, "min_n_evals": 2}},
                                  {"variance_estimator_options": {"min_n_evals": 6}}, {"search_radius_factor": 1.0, "n_evals_per_point": 3}, {"batch_size": 3},
                                  {"acceptance_decider_options": {"min_improvement": 0.2, "n_max": 6}}, {"acceptance_decider_options": {"n_min": 1, "n_max": 3}},
                                  {"sample_filter": "drop_excess", "n_evals_per_point": 2}, {"stagnation_options": {"min_relative_step": 5.0, "max_trials": 2}}]):
        if "acceptance_decider_options" not in cfg["opts"]:
            cfg["opts"]["acceptance_decider_options"] = {"n_max": 8}
        yield {**cfg, "iters": 6}
    for ft in FT:
        for j in (0.0, 0.5):
            yield {"functype": ft, "jitter": j, "decider": "naive_noisy", "iters": 5,
                   "opts": {**NO, "noisy": True, "acceptance_decider": "naive_noisy", "noise_adaptation_options": {"rho_noise_n_draws": 2}}}


def c_faults(tier):
    na = {"rho_noise_n_draws": 2}
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"] if tier != "quick" else [None], jitter=[0.4],
                           opts1=[{**NO, "noisy": True, "noise_adaptation_options": na, "acceptance_decider_options": {"n_max": 6}, "n_evals_per_point": 2}]):
        for dev in deviation_sets(30 if tier == "quick" else 50, ["E", "B", "W"], 1, first=1):
            if dev:
                yield {**cfg, "dev": dev, "iters": 3}


SUBS = [
    Sub("sizes", c_sizes, r_sizes, what="acceptance sample sizes on the complete lattice of arguments"),
    Sub("adjust", c_adjust, r_adjust, what="adaptation rule for all vectors of simulated ratios over an alphabet"),
    Sub("variance", c_variance, r_variance, what="all small evaluation histories"),
    Sub("rho", c_rho, r_rho, what="simulated improvement ratios with prescribed noise"),
    Sub("runs", c_runs, run, what="noisy optimizations over adaptation regimes and noise levels"),
    Sub("options", c_options, run, what="option lattice of noisy optimizations"),
    Sub("faults", c_faults, run, what="every single deviating or failing evaluation"),
]
