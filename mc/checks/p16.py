"""P16: infinities become finite, order preserving penalties."""
import itertools

import numpy as np

from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all value patterns of the input matrix on the real infinity handler"
RULE = "all columns up to a length over an alphabet of finite and non-finite values, and all pairs of columns; non-trivial: at least one non-finite entry"
ASSUMPTIONS = ["finite criterion values are smaller than 1e15 in absolute value"]

ALPHA = [float("inf"), float("-inf"), float("nan"), 0.0, 1.0, -3.5, 1000.0, -2e8, 1e-12, 3e13, -4e13]


def judge(m, out, before):
    viol = []
    if not isinstance(out, np.ndarray) or out.shape != m.shape:
        return [f"returned {type(out).__name__} of shape {getattr(out, 'shape', None)} for input of shape {m.shape}"]
    if not (np.array_equal(m, before, equal_nan=True)):
        viol.append("the input was modified")
    fin = np.isfinite(before)
    if not np.isfinite(out).all():
        viol.append("non-finite values remain")
    if not np.array_equal(out[fin], before[fin]):
        viol.append(f"finite values were changed: {before[fin].tolist()} -> {out[fin].tolist()}")
    for j in range(m.shape[1]):
        f = before[fin[:, j], j]
        p, n = out[before[:, j] == np.inf, j], out[before[:, j] == -np.inf, j]
        if len(f) and len(p) and not p.min() > f.max():
            viol.append(f"+inf became {p.min()}, although the column has the finite value {f.max()}")
        if len(f) and len(n) and not n.max() < f.min():
            viol.append(f"-inf became {n.max()}, although the column has the finite value {f.min()}")
        if len(p) and len(n) and not p.min() > n.max():
            viol.append(f"+inf became {p.min()}, -inf became {n.max()}")
    return viol


def call(m):
    f = need("tranquilo.handle_infinity", "get_infinity_handler")("relative")
    before = m.copy()
    out = f(m)
    return out, before


def c_columns(tier):
    for n in range(1, 6 if tier == "quick" else 7):
        for first in itertools.product(ALPHA, repeat=min(n, 2)):
            yield {"n": n, "first": list(first)}


def r_columns(case):
    viol, states, out, k = [], [], set(), 0
    rest = case["n"] - len(case["first"])
    for tail in itertools.product(ALPHA, repeat=rest):
        m = np.array([*case["first"], *tail])[:, None]
        o, b = call(m)
        k += 1
        states.append(h64(m.tolist()))
        v = judge(m, o, b)
        if v:
            viol.append(f"column {m[:, 0].tolist()}: {v[0]}")
            break
        out.add(tuple(np.isfinite(b[:, 0])))
    return Res(viol, outcome=h64(sorted(out)), states=states, transitions=k, sample=case)


def c_pairs(tier):
    a = ALPHA[:6] if tier == "quick" else ALPHA
    for n in (1, 2, 3):
        if n == 3:
            a = ALPHA[:2] + ALPHA[4:6] if tier == "quick" else ALPHA[:6]
        for col in itertools.product(a, repeat=n):
            yield {"col": list(col), "alpha": len(a), "n": n, "vals": a}


def r_pairs(case):
    """columns do not influence each other; rows, memory layout and read-only inputs do not matter"""
    viol, states, k = [], [], 0
    c1 = np.array(case["col"])
    alone = call(c1[:, None].copy())[0]
    for c2 in itertools.product(case["vals"], repeat=case["n"]):
        m = np.column_stack([c1, np.array(c2)])
        o, b = call(m)
        k += 1
        states.append(h64(m.tolist()))
        v = judge(m, o, b)
        if not v and not np.array_equal(o[:, 0], alone[:, 0]):
            v = [f"the first column depends on the second: {o[:, 0].tolist()} instead of {alone[:, 0].tolist()}"]
        if not v:
            f = np.asfortranarray(m)
            f.setflags(write=False)
            o2 = call(f)[0]
            if not np.array_equal(o, o2):
                v = ["another result for a read-only array in Fortran order"]
        if v:
            viol.append(f"matrix {m.tolist()}: {v[0]}")
            break
    return Res(viol, outcome=h64(np.isfinite(c1).tolist()), states=states, transitions=k, sample={"col": case["col"]})


def c_names(tier):
    yield {"what": "callable"}
    yield {"what": "unknown"}


def r_names(case):
    get = need("tranquilo.handle_infinity", "get_infinity_handler")
    viol = []
    if case["what"] == "callable":
        f = lambda fvecs: fvecs * 2  # noqa: E731
        if not np.array_equal(get(f)(np.ones((2, 2))), 2 * np.ones((2, 2))):
            viol.append("a user supplied handler is not used")
    else:
        for bad in ("nope", 3, None):
            try:
                get(bad)
                viol.append(f"{bad!r} is accepted as infinity handler")
            except (KeyError, ValueError, TypeError):
                pass
    return Res(viol, outcome=case["what"], states=[h64(case)], transitions=1)


SUBS = [
    Sub("columns", c_columns, r_columns, what="all columns over the alphabet"),
    Sub("pairs", c_pairs, r_pairs, what="all pairs of columns"),
    Sub("names", c_names, r_names, what="user supplied and unknown handlers"),
]
