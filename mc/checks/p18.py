"""P18: clustering partitions points into balls around centers."""
import itertools

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all point sequences on a lattice on the real clustering code against the defining conditions"
RULE = "all sequences of points from a lattice (with duplicates, in every order) x distances; non-trivial: at least one pair within the distance and one beyond"
ASSUMPTIONS = ["numba runs in interpreted mode", "distances within 1e-12 of the limit are not judged"]
GRIDS = {
    "line": [[0.0], [1.0], [2.0], [3.0], [4.0], [7.5]],
    "plane": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [3.0, 0.0], [2.0, 0.5]],
}
EPS = [0.0, 0.5, 1.0, 1.2, 1.5, 2.1, 10.0]


def judge(xs, labels, centers, eps):
    n = len(xs)
    dist = np.sqrt(((xs[:, None] - xs[None]) ** 2).sum(-1))
    labels, centers = np.asarray(labels), np.asarray(centers)
    k = len(centers)
    if labels.shape != (n,):
        return f"labels have shape {labels.shape}"
    if labels.min() < 0 or sorted(set(labels.tolist())) != list(range(k)):
        return f"labels {labels.tolist()} are not 0..{k - 1} for {k} centers"
    if len(set(centers.tolist())) != k or centers.min() < 0 or centers.max() >= n:
        return f"centers {centers.tolist()} are not distinct points"
    for c in range(k):
        if labels[centers[c]] != c:
            return f"center {centers[c]} of cluster {c} has label {labels[centers[c]]}"
    for i in range(n):
        if dist[i, centers[labels[i]]] > eps * (1 + 1e-12) + 1e-300:
            return f"point {i} is {dist[i, centers[labels[i]]]} away from its center {centers[labels[i]]}"
    for a, b in itertools.combinations(range(k), 2):
        if dist[centers[a], centers[b]] <= eps * (1 - 1e-12) or (dist[centers[a], centers[b]] == 0 and eps >= 0):
            return f"centers {centers[a]} and {centers[b]} are only {dist[centers[a], centers[b]]} apart"
    # clusters are formed around the point with the most unlabeled neighbours
    left = set(range(n))
    for c in range(k):
        mem = {i for i in range(n) if labels[i] == c}
        if len(mem) > 1:
            best = max(sum(dist[i, j] <= eps for j in left) for i in left)
            if len(mem) < best:
                return f"cluster {c} has {len(mem)} points, but a ball with {best} remaining points exists"
        left -= mem
    return None


def c_cluster(tier):
    for g, top in (("line", 5 if tier == "quick" else 6), ("plane", 4 if tier == "quick" else 5)):
        for n in range(1, top + 1):
            pts = range(len(GRIDS[g]))
            for first in itertools.product(pts, repeat=min(2, n)):
                yield {"grid": g, "n": n, "first": list(first)}


def r_cluster(case):
    f = need("tranquilo.clustering", "cluster")
    g = np.array(GRIDS[case["grid"]])
    viol, states, outs, k, nontriv = [], [], set(), 0, False
    for rest in itertools.product(range(len(g)), repeat=case["n"] - len(case["first"])):
        idx = [*case["first"], *rest]
        xs = g[idx]
        keep = xs.copy()
        for eps in EPS:
            labels, centers = f(xs, eps)
            k += 1
            states.append(h64(case["grid"], idx, eps))
            bad = judge(keep, labels, centers, eps)
            if not bad and not np.array_equal(xs, keep):
                bad = "the points were modified"
            if not bad:
                l2, c2 = f(xs, epsilon=eps, shape="sphere")
                if not np.array_equal(labels, l2) or not np.array_equal(centers, c2):
                    bad = "two calls give different clusters"
            outs.add((tuple(np.asarray(labels).tolist()), tuple(np.asarray(centers).tolist())))
            nontriv = nontriv or 1 < len(centers) < len(xs)
            if bad:
                viol.append(f"points {keep.tolist()}, distance {eps}: {bad}")
        if len(viol) > 2:
            break
    return Res(viol[:3], nontrivial=nontriv, outcome=h64(sorted(outs)), states=states, transitions=k, sample=case)


def c_filter(tier):
    for d in (1, 2, 3):
        for n in range(1, 5 if tier == "quick" else 6):
            for sep in itertools.product(["same", "near", "far"], repeat=n - 1):
                for target in (3, 7):
                    yield {"d": d, "sep": list(sep), "target": target}


def r_filter(case):
    """The filter keeps one center per cluster, with its own index, for its documented radius."""
    get = need("tranquilo.filter_points", "get_sample_filter")
    d, target = case["d"], case["target"]
    viol, states = [], []
    for radius in (0.5, 2.0):
        for strict in (1e-10, 1e-3, 0.5):
            clus = radius * (strict / target) ** (1 / d)
            x0 = np.array([0.3, -1.0, 2.0][:d])
            xs = [x0]
            for k, s in enumerate(case["sep"]):
                step = np.eye(d)[k % d] * (1 if k % 2 else -1)
                xs.append(xs[-1] + step * {"same": 0.0, "near": 0.4, "far": 1.7}[s] * clus)
            xs = np.array(xs)

            class S:
                pass

            s = S()
            s.x, s.index, s.fval = x0, 11, 0.0
            s.trustregion = geo.region({"center": x0, "radius": radius})
            idx = np.arange(len(xs)) * 3 + 11
            ox, oi = get("clustering", {"strictness": strict})(xs=xs.copy(), indices=idx.copy(), state=s, target_size=target, history=None)
            states.append(h64(case, radius, strict))
            ctx = f"d={d} separations={case['sep']} target={target} radius={radius} strictness={strict}"
            if len(ox) != len(oi) or not set(oi.tolist()) <= set(idx.tolist()) or len(set(oi.tolist())) != len(oi):
                viol.append(f"{ctx}: returned indices {np.asarray(oi).tolist()} of {idx.tolist()}")
                continue
            pos = [idx.tolist().index(i) for i in oi]
            if not np.array_equal(ox, xs[pos]):
                viol.append(f"{ctx}: points and indices do not belong together")
            dist = np.sqrt(((xs[:, None] - xs[None]) ** 2).sum(-1))
            # rounding of x + tiny steps limits what can be judged
            tol = 1e-15 * np.abs(xs).max() * 4 + 1e-9 * clus
            if (dist[:, pos].min(axis=1) > clus + tol).any():
                viol.append(f"{ctx}: a point has no kept center within {clus}")
            sub = dist[np.ix_(pos, pos)] + np.eye(len(pos)) * 1e9
            if (sub < clus - tol).any():
                viol.append(f"{ctx}: two kept points are closer than {clus}")
    return Res(viol[:3], outcome=h64(case["sep"]), states=states, transitions=len(states), sample=case)


SUBS = [
    Sub("cluster", c_cluster, r_cluster, what="all point sequences on lattices x distances"),
    Sub("filter", c_filter, r_filter, what="the clustering filter"),
]
