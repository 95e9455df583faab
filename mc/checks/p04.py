"""P04: the history is an append-only map; explicit-state exploration of operation sequences."""
import copy

import numpy as np

from mc import oracles
from mc.core import Res, Sub, h64, need
from mc.driver import aggregate
from mc.runs import FT

LEVEL = "model_checking"
RULE = ("all sequences of operations up to a depth from several initial fillings, every state compared with a list based reference model through all "
        "public getters; non-trivial: the sequence adds at least one evaluation")
ASSUMPTIONS = ["evaluation vectors of one history have one length"]

# operations; arguments are relative to the current number of points
OPS = ["x1", "x2", "x0", "xl", "e_last", "e_first", "e_rep", "e_two", "e_rev", "e_bad", "e_none", "e_scalar", "x_big", "e_big"]


class Model:
    """The boring reference: lists."""

    def __init__(self, ft):
        self.ft = ft
        self.xs = []
        self.ev = []  # per point: list of vectors
        self.n_fun = 0


def vec(ft, k):
    if ft == "scalar":
        return np.array([3.0 * k - 7.0])
    return np.array([0.5 * k - 2.0, 1.0 + (k % 5), -0.25 * k])


def xval(k):
    return np.array([0.01 * ((k * 37) % 101) - 0.5, 0.02 * ((k * 53) % 97) - 1.0])


class Bad(Exception):
    pass


def apply(h, m, op):
    """Apply op to the real history and to the model. Returns None or a violation."""
    n = len(m.xs)
    ft = m.ft

    def add(k, form):
        new = [xval(n + i) for i in range(k)]
        arg = {"1d": new[0].copy() if new else None, "2d": np.array(new).reshape(k, 2), "list": new}[form]
        got = h.add_xs(arg)
        if form == "1d":
            if np.ndim(got) != 0 or int(got) != n:
                raise Bad(f"add_xs of one vector returned {got!r}, expected index {n}")
        elif np.atleast_1d(np.asarray(got)).astype(int).tolist() != list(range(n, n + k)):
            raise Bad(f"add_xs returned {got!r}, expected {list(range(n, n + k))}")
        for x in new:
            m.xs.append(x)
            m.ev.append([])
        # later changes of the caller's array must not change the record
        if isinstance(arg, np.ndarray):
            arg += 1e6

    def ev(idx, form="arr"):
        vs = [vec(ft, m.n_fun + i) for i in range(len(idx))]
        if ft == "scalar":
            vals = [float(v[0]) for v in vs]
            arg = np.array(vals) if form == "arr" else (vals if form == "list" else vals[0])
        else:
            arg = np.array(vs).reshape(len(idx), 3) if form == "arr" else (list(vs) if form == "list" else vs[0].copy())
        ind = np.array(idx, dtype=int) if form == "arr" else (list(idx) if form == "list" else idx[0])
        h.add_evals(ind, arg)
        for i, v in zip(idx, vs):
            m.ev[i].append(v)
            m.n_fun += 1
        if isinstance(arg, np.ndarray):
            arg += 1e6

    if op == "x1":
        add(1, "1d")
    elif op == "x2":
        add(2, "2d")
    elif op == "xl":
        add(3, "list")
    elif op == "x0":
        got = h.add_xs(np.array([]))
        if len(np.atleast_1d(np.asarray(got))) != 0:
            raise Bad(f"adding nothing returned {got!r}")
    elif op == "x_big":
        add(1001, "2d")
    elif op == "e_big":
        if n == 0:
            return False
        ev([(i * 7) % n for i in range(1003)])
    elif op == "e_bad":
        try:
            h.add_evals(np.array([0, n] if n else [n]), np.array([vec(ft, 0)] * (2 if n else 1)).reshape(-1) if ft == "scalar" else np.array([vec(ft, 0)] * (2 if n else 1)))
        except Exception:
            return True
        raise Bad("an evaluation for an unknown point was accepted")
    elif op == "e_none":
        if m.n_fun == 0:
            return False
        h.add_evals(np.array([], dtype=int), np.array([]).reshape(0, 3) if ft != "scalar" else np.array([]))
    elif n == 0:
        return False
    elif op == "e_last":
        ev([n - 1])
    elif op == "e_scalar":
        ev([n // 2], "scalar")
    elif op == "e_first":
        ev([0], "list")
    elif op == "e_rep":
        ev([n - 1, 0, n - 1], "list")
    elif op == "e_two":
        ev(list(range(max(0, n - 2), n)))
    elif op == "e_rev":
        ev(list(range(n))[::-1][:4])
    return True


class _Reg:
    def __init__(self, center, radius):
        self.center, self.radius = np.array(center), radius


def compare(h, m, light=False):
    n = len(m.xs)
    if h.get_n_xs() != n:
        raise Bad(f"get_n_xs {h.get_n_xs()} instead of {n}")
    if h.get_n_fun() != m.n_fun:
        raise Bad(f"get_n_fun {h.get_n_fun()} instead of {m.n_fun}")
    if n == 0:
        return
    X = np.array(m.xs)
    if not np.array_equal(h.get_xs(), X):
        raise Bad("get_xs() differs from what was stored")
    sel = sorted({0, n // 2, n - 1, max(0, n - 2), min(n - 1, 999), min(n - 1, 1000)})
    sel_all = [np.array(sel)[::-1].copy(), list(sel), np.arange(n)] if not light else [np.array(sel)[::-1].copy()]
    for s in sel_all:
        if not np.array_equal(h.get_xs(s), X[s]):
            raise Bad(f"get_xs({np.asarray(s).tolist()[:6]}) differs")
    if not np.array_equal(h.get_xs(n - 1), X[n - 1]):
        raise Bad("get_xs of a single index differs")
    if m.n_fun == 0:
        return
    for s in sel_all:
        vecs, vals, num = h.get_fvecs(s), h.get_fvals(s), h.get_n_evals(s)
        idx = np.asarray(s).tolist()
        if [int(k) for k in vecs] != idx or [int(k) for k in vals] != idx or {int(k) for k in num} != set(idx):
            raise Bad(f"getters return indices {list(vecs)} instead of {idx}")
        for i in idx:
            w = m.ev[i]
            if int(num[i]) != len(w):
                raise Bad(f"get_n_evals({i}) is {num[i]} instead of {len(w)}")
            if len(w) == 0:
                if len(vecs[i]) or len(vals[i]):
                    raise Bad(f"point {i} without evaluations returns some")
                continue
            if not np.array_equal(np.asarray(vecs[i]), np.array(w)):
                raise Bad(f"get_fvecs({i}) is {np.asarray(vecs[i]).tolist()} instead of {np.array(w).tolist()}")
            want = np.array([aggregate(m.ft, v) for v in w])
            if np.shape(vals[i]) != want.shape or not np.allclose(vals[i], want, rtol=1e-13, atol=1e-13):
                raise Bad(f"get_fvals({i}) is {np.asarray(vals[i]).tolist()} instead of {want.tolist()}")
    i = n - 1
    if not np.array_equal(np.asarray(h.get_fvecs(i)).reshape(-1), np.array(m.ev[i]).reshape(-1)):
        raise Bad("get_fvecs of a single index differs")
    if len(np.atleast_1d(h.get_fvals(i))) != len(m.ev[i]):
        raise Bad("get_fvals of a single index differs")
    have = [i for i in sel if m.ev[i]]
    if have:
        xs, fv = h.get_model_data(np.array(have), average=True)
        if not np.array_equal(xs, X[have]) or not np.allclose(fv, [np.mean(m.ev[i], axis=0) for i in have], rtol=1e-13):
            raise Bad("get_model_data(average=True) differs")
        xs, fv = h.get_model_data(np.array(have), average=False)
        reps = [len(m.ev[i]) for i in have]
        if not np.array_equal(xs, np.repeat(X[have], reps, axis=0)) or not np.array_equal(fv, np.vstack([np.array(m.ev[i]) for i in have])):
            raise Bad("get_model_data(average=False) differs")
    for center, r in (([0.0, 0.0], 0.3), (X[-1], 0.0), ([0.0, 0.0], 1e9), ([5.0, 5.0], 0.1)):
        got = np.asarray(h.get_x_indices_in_region(_Reg(center, r))).astype(int).tolist()
        want = [i for i in range(n) if np.linalg.norm(X[i] - np.array(center)) <= r]
        if got != want:
            raise Bad(f"points within {r} of {np.asarray(center).tolist()}: {got[:8]} instead of {want[:8]}")
    # results are copies or at least do not allow to lose entries by the getters themselves
    if not np.array_equal(h.get_xs(), X):
        raise Bad("getters changed the stored points")


def initial(ft, kind):
    h = need("tranquilo.history", "History")(functype=ft)
    m = Model(ft)
    if kind == "empty":
        return h, m

    def fill(nx, nf, order):
        new = [xval(i) for i in range(nx)]
        h.add_xs(np.array(new))
        m.xs += new
        m.ev += [[] for _ in new]
        if nf:
            idx = [(i * order) % nx for i in range(nf)]
            vs = [vec(ft, i) for i in range(nf)]
            h.add_evals(np.array(idx), np.array(vs).reshape(-1) if ft == "scalar" else np.array(vs))
            for i, v in zip(idx, vs):
                m.ev[i].append(v)
            m.n_fun += nf

    {"one": lambda: fill(1, 1, 1), "x999": lambda: fill(999, 5, 3), "f999": lambda: fill(4, 999, 3), "both998": lambda: fill(998, 998, 1),
     "x1000": lambda: fill(1000, 1000, 1), "x2999": lambda: fill(2999, 1999, 1)}[kind]()
    return h, m


def c_seq(tier):
    kinds = {"empty": 4, "one": 4, "x999": 3, "f999": 2, "both998": 3, "x1000": 2, "x2999": 2}
    if tier != "quick":
        kinds = {"empty": 6, "one": 5, "x999": 4, "f999": 4, "both998": 4, "x1000": 3, "x2999": 3}
    for ft in FT:
        for kind, depth in kinds.items():
            ops = OPS if kind not in ("empty", "one") else OPS[:12]
            for first in ops:
                for second in ops:
                    yield {"ft": ft, "init": kind, "depth": depth, "prefix": [first, second]}


def r_seq(case):
    """Depth first search over all continuations of the prefix, with real objects copied at every branch."""
    ft = case["ft"]
    small = case["init"] in ("empty", "one")
    ops = OPS[:12] if small else OPS
    h, m = initial(ft, case["init"])
    states = set()
    count = [0]

    def key(m):
        return h64(ft, case["init"], len(m.xs), [len(e) for e in m.ev] if len(m.ev) < 50 else (len(m.ev), m.n_fun, h64([len(e) for e in m.ev])))

    def step(h, m, op, path):
        try:
            done = apply(h, m, op)
            if done:
                compare(h, m, light=not small)
        except Bad as e:
            raise Bad(f"{ft} from {case['init']}: {' '.join(path + [op])}: {e}") from None
        count[0] += 1
        states.add(key(m))
        return done

    def dfs(h, m, path):
        if len(path) == case["depth"]:
            return
        for op in ops:
            h2, m2 = copy.deepcopy(h), copy.deepcopy(m)
            if step(h2, m2, op, path):
                dfs(h2, m2, path + [op])

    viol = []
    try:
        path = []
        ok = True
        for op in case["prefix"]:
            ok = step(h, m, op, path) and ok
            path.append(op)
            if not ok:
                break
        if ok:
            dfs(h, m, path)
    except Bad as e:
        viol = [str(e)]
    return Res(viol, nontrivial=m.n_fun > 0 or len(states) > 2, outcome=len(states), states=states, transitions=count[0],
               extra={"operations_checked": count[0]}, sample={**case, "sequences": count[0]})


def c_misc(tier):
    for ft in FT:
        for d in (1, 2, 4):
            for m in (1, 2, 5):
                yield {"ft": ft, "d": d, "m": 1 if ft == "scalar" else m}


def r_misc(case):
    """Shapes: parameter dimension x vector length, infinite and repeated evaluations, region lookup on the border."""
    History = need("tranquilo.history", "History")
    ft, d, mm = case["ft"], case["d"], case["m"]
    viol = []
    h = History(functype=ft)
    xs = np.array([[0.1 * i + 0.01 * j for j in range(d)] for i in range(4)])
    h.add_xs(xs)
    for i in range(4):
        for rep in range(i + 1):
            v = np.array([(-1.0) ** (i + j) * (i + 1 + 0.1 * rep + j) for j in range(mm)])
            if i == 2 and rep == 1:
                v[0] = np.inf
            if i == 3 and rep == 2:
                v[-1] = -np.inf
            h.add_evals(i, v if ft != "scalar" else v[0])
    for i in range(4):
        vecs, vals = np.asarray(h.get_fvecs(i)), np.asarray(h.get_fvals(i))
        if vecs.shape != (i + 1, mm) or vals.shape != (i + 1,):
            viol.append(f"shapes {vecs.shape} {vals.shape}")
            continue
        for v, f in zip(vecs, vals):
            if not oracles.close(f, aggregate(ft, v), 1e-13):
                viol.append(f"value {f} of {v.tolist()}")
    xs0, fv = h.get_model_data(1)
    if np.shape(xs0) != (1, d) or np.shape(fv) != (1, mm):
        viol.append(f"model data of a single index has shapes {np.shape(xs0)} {np.shape(fv)}")
    r = float(np.linalg.norm(xs[2] - xs[0]))
    got = np.asarray(h.get_x_indices_in_region(_Reg(xs[0], r))).tolist()
    if got != [0, 1, 2]:
        viol.append(f"lookup on the border returned {got}")
    if not np.array_equal(h.get_xs(slice(1, 3)), xs[1:3]) or set(h.get_fvals(slice(1, 3))) != {1, 2}:
        viol.append("slices are not supported consistently")
    return Res(viol, outcome=repr(np.shape(fv)))


SUBS = [
    Sub("sequences", c_seq, r_seq, timeout=300, chunk=2, what="depth first search over all operation sequences, incl. fillings around the capacity limits"),
    Sub("shapes", c_misc, r_misc, what="parameter dimensions x vector lengths, infinite and repeated evaluations"),
]
