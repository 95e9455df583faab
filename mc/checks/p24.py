"""P24: the diagnostic figure shows what happened in the run."""
import copy
import functools
import itertools
from typing import NamedTuple

import numpy as np

from mc import driver
from mc.core import Res, Sub, Unavailable, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of run configurations and answer sequences on the real optimizer; for every iteration of every run the data of the real figure is compared with a recomputation from the recorded environment"
RULE = "one case = one run, all of its iterations are plotted alone and side by side; non-trivial: the run has an iteration with old and with new points"
ASSUMPTIONS = ["a figure is judged by its data: traces are identified by the subplot row and column they are in, their mode and their name",
               "the optimization results are built from the recorded calls as the surrounding library builds them"]
INF = np.inf


def result(run, algorithm="tranquilo"):
    """What the surrounding optimization library returns for the run."""
    try:
        from estimagic.optimization.optimize_result import OptimizeResult
    except ImportError as e:
        raise Unavailable(str(e)) from e
    hist = {"params": [c[0] for c in run.env.calls], "criterion": [driver.aggregate(run.cfg["functype"], c[1]) for c in run.env.calls]}
    hist["runtime"] = list(range(len(hist["params"])))
    return OptimizeResult(params=run.res["solution_x"], criterion=run.res["solution_criterion"], start_criterion=hist["criterion"][0], start_params=run.x0,
                          algorithm=algorithm, direction="minimize", n_free=len(run.x0), history=hist, algorithm_output=run.res)


def points(run):
    """Points in the order of their creation with their values (the record itself is subject of P03 and P04)."""
    xs = np.array(run.history.get_xs())
    vals = [np.atleast_1d(run.history.get_fvals(i)) for i in range(len(xs))]
    return xs, vals


def by_axes(fig, row, col):
    sp = fig.get_subplot(row=row, col=col)
    xa, ya = sp.xaxis.plotly_name.replace("axis", ""), sp.yaxis.plotly_name.replace("axis", "")
    return [t for t in fig.data if (t.xaxis or "x") == xa and (t.yaxis or "y") == ya]


def arr(v):
    return np.array([np.nan if q is None else q for q in ([] if v is None else v)], dtype=float)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    fin = np.isfinite(b)
    if not np.array_equal(fin, np.isfinite(a)):
        return False
    return bool(np.all(np.abs(a[fin] - b[fin]) <= tol * (1 + np.abs(b[fin])))) and all((np.isnan(p) and np.isnan(q)) or p == q for p, q in zip(a[~fin], b[~fin]))


def rows(a):
    return sorted(np.round(np.asarray(a, float), 12).reshape(len(a), -1).tolist()) if len(a) else []


def n_clusters_bound(points_, radius):
    """Smallest and largest number of centers of a greedy cover (each point within reach of a center, centers apart)."""
    D = np.linalg.norm(points_[:, None] - points_[None], axis=2)
    near = D <= radius * (1 + 1e-12)
    return 1, int(len(points_)), near


def log_det(u):
    s, v = np.linalg.slogdet(u.T @ u)
    return v if s > 0 else -INF


def unit(reg, xs):
    if reg.shape == "sphere":
        return (xs - reg.center) / reg.radius
    lo, hi = reg.cube_bounds.lower, reg.cube_bounds.upper
    return 2 * (xs - lo) / (hi - lo) - 1


def check_column(fig, col, run, it, xs, vals, tag):
    st = run.states
    s = st[it]
    out = []

    def bad(msg):
        out.append(f"{tag}, iteration {it}: {msg}")

    ints = lambda v: np.atleast_1d(np.asarray(v)).astype(int)  # noqa: E731
    model, new, old, disc = ints(s.model_indices), ints(s.new_indices), ints(s.old_indices_used), ints(s.old_indices_discarded)
    d = len(s.x)
    groups = {"existing": old, "new": new, "discarded": disc}
    # sample points
    tr = by_axes(fig, 1, col)
    if d <= 2:
        want_names = {k for k, v in groups.items() if len(v)}
        got_names = {t.name for t in tr}
        if got_names != want_names:
            bad(f"sample points of kinds {sorted(got_names)} are shown, there are {sorted(want_names)}")
        for t in tr:
            if t.name in groups:
                got = np.column_stack([arr(t.x), arr(t.y)])
                want = xs[groups[t.name]]
                if d == 1:
                    got, want = got[:, :1], want[:, :1]
                if rows(got) != rows(want):
                    bad(f"{t.name} points {got.tolist()} are shown, they are {want.tolist()}")
        shp = [q for q in fig.layout.shapes if q.type == "circle"]
        if shp:
            ok = False
            for q in shp:
                c = [(q.x0 + q.x1) / 2, (q.y0 + q.y1) / 2][:d]
                r = (q.x1 - q.x0) / 2
                if same(c, s.trustregion.center) and same([r], [s.trustregion.radius]) and same([(q.y1 - q.y0) / 2], [r]):
                    ok = True
            if not ok:
                bad("no circle shows the trust region")
    else:
        heat = [t for t in tr if t.type == "heatmap"]
        if len(heat) != 1:
            bad("no heatmap of the correlations")
        else:
            P = np.vstack([xs[model], xs[disc]]) if len(disc) else xs[model]
            z = np.array([[np.nan if q is None else q for q in r_] for r_ in heat[0].z], float)
            with np.errstate(all="ignore"):
                C = np.abs(np.corrcoef(P, rowvar=False)) if len(P) > 1 else np.full((d, d), np.nan)
            for i in range(d):
                for j in range(d):
                    if np.isnan(z[i, j]):
                        if j < i and not np.isnan(C[i, j]):
                            bad(f"the correlation of parameters {i} and {j} is not shown")
                    elif abs(z[i, j] - C[i, j]) > 1e-7:
                        bad(f"correlation {z[i, j]} of parameters {i} and {j}, it is {C[i, j]}")
    # distances
    dx = (xs[model] - s.trustregion.center) / s.trustregion.radius
    for r, want, name in ((2, np.sqrt((dx ** 2).sum(axis=1)), "euclidean"), (3, np.abs(dx).max(axis=1), "maximum")):
        got = np.concatenate([arr(t.x) for t in by_axes(fig, r, col)] or [[]])
        if not same(np.sort(got), np.sort(want)):
            bad(f"{name} distances {got.tolist()} are shown, they are {want.tolist()}")
    # criterion
    tr = by_axes(fig, 4, col)
    line = [t for t in tr if t.mode == "lines"]
    mean = np.array([np.mean(v) for v in vals])
    if len(line) != 1 or not same(arr(line[0].y), mean) or not same(arr(line[0].x), np.arange(len(mean))):
        bad("the criterion line does not show the criterion values of all points")
    marks = {(t.name or "").strip(): t for t in tr if t.mode == "markers"}
    for name, idx in {**groups, "current index": np.array([int(s.index)])}.items():
        t = marks.get(name)
        if t is None:
            if len(idx):
                bad(f"criterion values of the {name} points are missing")
        elif sorted(zip(arr(t.x).tolist(), np.round(arr(t.y), 9).tolist())) != sorted(zip([float(i) for i in idx], np.round(mean[idx], 9).tolist())):
            bad(f"criterion values {list(zip(arr(t.x).tolist(), arr(t.y).tolist()))} are marked as {name}, these are {list(zip(idx.tolist(), mean[idx].tolist()))}")
    # histories with the highlighted iteration
    its = np.arange(len(st))
    rho = np.array([q.rho for q in st], float)
    rho[~np.isnan(rho)] = np.minimum(np.maximum(rho[~np.isnan(rho)], -1), 3)
    radius = np.array([q.trustregion.radius for q in st], float)
    fek = [np.nan]
    for q in st[1:]:
        fek.append(log_det(unit(q.trustregion, xs[ints(q.model_indices)])))
    for r, want, name, tol in ((5, rho, "improvement ratios", 1e-9), (6, radius, "radii", 1e-9), (8, np.array(fek), "determinants", 1e-6)):
        tr = by_axes(fig, r, col)
        line = [t for t in tr if t.mode == "lines"]
        mark = [t for t in tr if t.mode == "markers"]
        if len(line) != 1 or not same(arr(line[0].x), its) or not same_soft(arr(line[0].y), want, tol, r == 8):
            bad(f"{name} {[arr(t.y).tolist() for t in line]} are shown, they are {want.tolist()}")
        elif len(mark) != 1 or arr(mark[0].x).tolist() != [float(it)] or not same_soft(arr(mark[0].y), want[[it]], tol, r == 8):
            bad(f"the highlighted value of the {name} is not that of the iteration")
    # clusters
    tr = by_axes(fig, 7, col)
    line = sorted((t for t in tr if t.mode == "lines"), key=lambda t: t.name)
    mark = sorted((t for t in tr if t.mode == "markers"), key=lambda t: t.name)
    if len(line) != 3 or len(mark) != 3:
        bad("the cluster ratios of three cluster sizes should be shown")
    for t, m in zip(line, mark):
        y = arr(t.y)
        f = int("".join(c for c in t.name if c.isdigit()) or 0)
        if len(y) != len(st) or not same(arr(t.x), its):
            bad(f"cluster ratios for {len(y)} of {len(st)} iterations")
            continue
        for q, v in zip(st[1:], y[1:]):
            P = xs[ints(q.model_indices)]
            n = len(P)
            # clusters cover balls whose joint volume is 1/f of that of the trust region
            r = q.trustregion.radius * (1 / (f * n)) ** (1 / d)
            lo, hi = cover_bounds(P, r)
            k = v * n
            if abs(k - round(k)) > 1e-9 or not lo <= round(k) <= hi:
                bad(f"cluster ratio {v} of {n} points for {t.name}: the number of clusters is between {lo} and {hi}")
                break
        if arr(m.x).tolist() != [float(it)] or not same(arr(m.y), y[[it]]):
            bad("the highlighted cluster ratio is not that of the iteration")
    return out


def same_soft(a, b, tol, singular_ok):
    """As `same`; determinants of (nearly) singular samples are rounding noise."""
    if not singular_ok:
        return same(a, b, tol)
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if np.isnan(q) and np.isnan(p):
            continue
        if (not np.isfinite(q) or q < -25) and (not np.isfinite(p) or p < -25):
            continue
        if not np.isfinite(p) or not np.isfinite(q) or abs(p - q) > tol * (1 + abs(q)):
            return False
    return True


def cover_bounds(P, r):
    """Bounds of the number of clusters: clusters are formed greedily from neighborhoods of radius r.

    Every cluster has a center and lies within r of it, so that at least a packing with
    distances above 2r is needed; a point without any neighbor is its own cluster, and
    clusters are formed around points with neighbors first."""
    n = len(P)
    D = np.linalg.norm(P[:, None] - P[None], axis=2)
    far = D > 2 * r * (1 + 1e-9)
    lo = 0
    for k in range(min(n, 8), 0, -1):
        if any(all(far[i, j] for i, j in itertools.combinations(c, 2)) for c in itertools.combinations(range(min(n, 12)), k)):
            lo = k
            break
    near = (D <= r * (1 - 1e-9)) & ~np.eye(n, dtype=bool)
    # the first cluster takes all neighbors of its center
    hi = n - int(near.any(axis=1).any())
    return max(1, lo), max(1, hi)


def freeze(o):
    return h64(repr(o))


def c_runs(tier):
    for c in _c_runs(tier):
        yield c if tier == "quick" else {**c, "all": True}


def _c_runs(tier):
    iters = 4 if tier == "quick" else 7
    for ft in ("scalar", "least_squares", "likelihood"):
        for d in (1, 2, 3):
            for opts in ({}, {"batch_size": 3, "acceptance_decider": "classic_line_search"}, {"sample_filter": "discard_all"}, {"sample_filter": "drop_excess", "sample_filter_options": {"n_max_factor": 1}}):
                for acc in itertools.product("gr", repeat=2 if tier == "quick" else 4) if not opts or tier != "quick" else ("gr",):
                    yield {"functype": ft, "d": d, "iters": iters, "base": "quad", "opts": opts, "acc2": "".join(acc)}
            yield {"functype": ft, "d": d, "iters": iters, "base": "quad", "reverse": True}
            for b in ("l" * d, "n" * d, "j" * d, "U" * d):
                yield {"functype": ft, "d": d, "iters": iters, "base": "lin" if d > 1 else "quad", "bounds": b}
        for d in (1, 2, 3) if tier != "quick" else (2, 3):
            for jit in (0.05, 0.6):
                for o in ({}, {"n_evals_at_start": 1}, {"n_evals_per_point": 2}):
                    yield {"functype": ft, "d": d, "iters": iters, "base": "quad", "jitter": jit, "opts": {"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 3}, "acceptance_decider_options": {"n_max": 6}, **o}}
    for d in (2, 3):
        for k in range(1, 8):
            for sym in "EI":
                yield {"functype": "scalar", "d": d, "iters": iters, "base": "quad", "dev": [[k, sym]]}


def reverse(xs, indices):
    return xs[::-1].copy(), indices[::-1].copy()


def r_runs(case):
    viz = need("tranquilo.visualize", "visualize_tranquilo")
    cfg = dict(case)
    acc2 = cfg.pop("acc2", None)
    tier_all = cfg.pop("all", False)
    if acc2:
        cfg["policy"] = "f"
        cfg["tap"] = True
        cfg["acc"] = [0.8 if c == "g" else -0.5 for c in acc2] * 3
        if cfg["opts"].get("batch_size"):
            cfg["acc"] = []
    if cfg.pop("reverse", False):
        # a user supplied filter that returns the points in another order
        cfg["opts"] = {**cfg.get("opts", {}), "sample_filter": reverse}
    run = driver.run_opt(cfg)
    if run.exc is not None:
        return Res([f"the run failed: {run.exc!r}"])
    for c in run.env.calls:
        if c[1] is None:
            c[1] = np.array(INF) if cfg["functype"] == "scalar" else np.full(3, INF)
    xs, vals = points(run)
    viol, k = [], 0
    n = len(run.states)
    res = result(run)
    before = freeze((res.history, [s._replace(model=None, vector_model=None) for s in run.states]))
    calls = [(f"iteration list [{i}]", res, [i], [(run, i)]) for i in (range(n) if tier_all else (1,))]
    calls.append(("all iterations", res, list(range(n)), [(run, i) for i in range(n)]))
    calls.append(("reversed iterations", res, (n - 1, 0), [(run, n - 1), (run, 0)]))
    calls.append(("same iteration of two results", {"a": res, "b": res}, min(1, n - 1), [(run, min(1, n - 1))] * 2))
    calls.append(("different iterations of results", {"a": res, "b": res, "c": res}, {"a": n - 1, "b": 0, "c": n // 2}, [(run, n - 1), (run, 0), (run, n // 2)]))
    for tag, r, its, cols in calls:
        try:
            fig = viz(r, its)
        except Exception as e:
            viol.append(f"{tag}: {type(e).__name__}: {e}")
            break
        k += 1
        for c, (rn, it) in enumerate(cols):
            viol += check_column(fig, c + 1, rn, it, xs, vals, tag)
        if viol:
            break
    if not viol and freeze((res.history, [s._replace(model=None, vector_model=None) for s in run.states])) != before:
        viol.append("the optimization result was modified")
    mixed = any(len(np.atleast_1d(s.new_indices)) and len(np.atleast_1d(s.old_indices_used)) for s in run.states)
    return Res(viol[:4], nontrivial=mixed, outcome=h64(n, "".join("ar"[not s.accepted] for s in run.states), len(xs)), states=driver.state_hashes(run), transitions=k, sample=case)


# ------------------------------------------------------------- results of other optimizers


class NagState(NamedTuple):
    x: np.ndarray
    model_points: np.ndarray
    trustregion: object
    rho: float
    old_indices_used: np.ndarray = np.array([], dtype=int)
    old_indices_discarded: np.ndarray = np.array([], dtype=int)
    model_indices: np.ndarray = np.array([0])
    new_indices: np.ndarray = np.array([0])
    index: int = 0


def c_nag(tier):
    for algo in ("nag_pybobyqa", "nag_dfols"):
        for d in (2, 3):
            for dup in (False, True):
                for size in range(d + 1, 6):
                    yield {"algo": algo, "d": d, "dup": dup, "size": size}


def r_nag(case):
    """States of other optimizers contain model points instead of indices."""
    viz = need("tranquilo.visualize", "visualize_tranquilo")
    Region = need("tranquilo.region", "Region")
    d = case["d"]
    grid = np.array(list(itertools.product([0.0, 1.0, 3.0], repeat=d)))[: 9]
    xs = grid * 0.7 + 0.1
    if case["dup"]:
        xs = np.vstack([xs, xs[[2, 4]]])
    f = (xs ** 2).sum(axis=1) + np.arange(len(xs)) * 0
    viol, k = [], 0
    for sub in itertools.combinations(range(9), case["size"]):
        if k >= 8:
            break
        if np.linalg.matrix_rank(xs[list(sub)]) < d:
            continue
        k += 1
        reg = Region(center=xs[sub[0]], radius=2.0)
        st = [NagState(x=xs[0], model_points=xs[:1], trustregion=reg, rho=np.nan), NagState(x=xs[sub[1]], model_points=xs[list(sub)], trustregion=reg, rho=0.5)]
        run = type("R", (), {})()
        run.states = [s._replace(model_indices=np.array(i), new_indices=np.array(i), index=j) for s, i, j in zip(st, ([0], list(sub)), (0, sub[1]))]
        run.cfg = {"functype": "scalar"}
        run.x0 = xs[0]
        run.env = type("E", (), {"calls": [[x, v, "v"] for x, v in zip(xs, f)]})
        run.res = {"solution_x": xs[0], "solution_criterion": 0.0, "states": st}
        res = result(run, case["algo"])
        for tag, r, its in (("list", res, [1]), ("integer", {"a": res}, 1), ("dictionary", {"a": res}, {"a": 1})):
            try:
                fig = viz(r, its)
                viol += check_column(fig, 1, run, 1, xs, [[v] for v in f], f"{case['algo']} {tag} points {sub}")
            except Exception as e:
                viol.append(f"{tag}: {type(e).__name__}: {e}")
        if viol:
            break
    return Res(viol[:3], outcome=h64(case["d"], case["dup"]), states=[h64(case)], transitions=k * 3, sample=case)


SUBS = [
    Sub("runs", c_runs, r_runs, chunk=1, what="runs, plotted at every iteration"),
    Sub("other", c_nag, r_nag, chunk=1, what="results of optimizers that record model points instead of indices"),
]
