"""P03: every requested evaluation is done once and recorded faithfully."""
import itertools
import traceback

import numpy as np

from mc import oracles
from mc.core import Res, Sub, need
from mc.driver import aggregate, deviation_sets
from mc.runs import FT, LINE, batch, product_cfg, run_case

LEVEL = "fault_enumeration"
RULE = ("every batch composition over up to 3 stored points with up to 3 repetitions in every order x every assignment of answers (complete up to 3 "
        "evaluations, at most 2 deviating answers beyond) x function types x earlier history; plus full optimizations with deviating answers; "
        "non-trivial: at least one evaluation")
ASSUMPTIONS = ["the first evaluation of a run fixes the length of the evaluation vectors", "a failing first batch of a vector valued function contains at least one success"]

XS = [np.array([1.0, 2.0]), np.array([-0.5, 0.25]), np.array([3.0, -1.0])]
SYMS = ["v", "E", "N", "I", "M", "P", "Q"]


class Crit:
    """Answers the k-th call by the k-th symbol; values identify the call."""

    def __init__(self, ft, syms, mutate, form):
        self.ft, self.syms, self.mutate, self.form = ft, syms, mutate, form
        self.calls = []
        self.answers = []

    def __call__(self, x):
        k = len(self.calls)
        self.calls.append(np.array(x, float))
        if self.mutate:
            x[...] = 77.0
        sym = self.syms[k] if k < len(self.syms) else "v"
        base = np.array([1.0 + k, -2.0 - k, 0.5 * (k + 1)]) if self.ft != "scalar" else np.array(10.0 + k)
        nan, inf = np.nan, np.inf
        a = base.copy()
        if sym == "E":
            self.answers.append(None)
            raise ValueError(f"evaluation {k} failed")
        if sym == "N":
            a[...] = nan
        elif sym == "I":
            a[...] = inf
        elif sym == "M":
            a[...] = -inf
        elif sym == "P":
            a[..., :1] = nan
        elif sym == "Q" and a.ndim:
            a[0], a[-1] = inf, -inf
        self.answers.append(a.copy())
        if self.ft == "scalar":
            return float(a) if self.form == 0 else (np.float64(a) if self.form == 1 else np.array(a))
        return a if self.form == 0 else (a.tolist() if self.form == 1 else np.asfortranarray(a))


def compositions():
    """Ordered requests: a sequence of distinct points with repetitions."""
    out = []
    for n in range(0, 4):
        for order in itertools.permutations(range(3), n):
            for reps in itertools.product((1, 2, 3), repeat=n):
                if sum(reps) <= 5:
                    out.append([list(t) for t in zip(order, reps)])
    return out


def assignments(n, ft):
    syms = SYMS if ft != "scalar" else ["v", "E", "N", "I", "M"]
    if n <= 3:
        yield from (list(t) for t in itertools.product(syms, repeat=n))
    else:
        for k in range(3):
            for pos in itertools.combinations(range(n), k):
                for t in itertools.product(syms[1:], repeat=k):
                    a = ["v"] * n
                    for p, s in zip(pos, t):
                        a[p] = s
                    yield a


def c_batches(tier):
    comps = compositions()
    for ft in FT:
        for comp in comps:
            n = sum(r for _, r in comp)
            # all assignments of one composition form one case
            for pre in (1, 0):
                for form in (0,) if tier == "quick" and n > 2 else (0, 1, 2):
                    yield {"ft": ft, "comp": comp, "pre": pre, "form": form, "n_cores": 1 + (n % 3)}


def r_batches(case):
    viol = []
    n = sum(r for _, r in case["comp"])
    count = 0
    outs = set()
    for syms in assignments(n, case["ft"]):
        if not case["pre"] and case["ft"] != "scalar" and n and all(s == "E" for s in syms):
            continue
        if len(syms) and syms[0] == "E" and not case["pre"] and n == 1 and case["ft"] != "scalar":
            continue
        for mutate in (False, True):
            viol += one_batch(case, syms, mutate)
            count += 1
        outs.add("".join(syms))
        if len(viol) > 3:
            break
    return Res(viol[:3], nontrivial=n > 0, outcome=f"{n}:{len(outs)}", extra={"batches": count},
               sample={**case, "answers": syms if n else []})


def one_batch(case, syms, mutate):
    History = need("tranquilo.history", "History")
    wrap = need("tranquilo.wrap_criterion", "get_wrapped_criterion")
    ft, comp = case["ft"], case["comp"]
    h = History(functype=ft)
    h.add_xs(np.array(XS))
    before = {}
    if case["pre"]:
        vals = {"scalar": [5.0, 6.0, 7.0], "likelihood": [[5.0, 1, 2], [6.0, 1, 2], [7.0, 1, 2]], "least_squares": [[5.0, 1, 2], [6.0, 1, 2], [7.0, 1, 2]]}[ft]
        h.add_evals([0, 1, 1], vals)
        before = {0: [np.atleast_1d(vals[0])], 1: [np.atleast_1d(vals[1]), np.atleast_1d(vals[2])]}
    crit = Crit(ft, syms, mutate, case["form"])
    batches = []

    def be(criterion, arguments, *, n_cores=1, error_handling="continue"):
        arguments = list(arguments)
        batches.append((len(arguments), n_cores, error_handling))
        out = []
        for a in arguments:
            try:
                out.append(criterion(a))
            except Exception:
                out.append(traceback.format_exc())
        return out

    tag = f"{ft} request {comp} answers {''.join(syms)} mutate={mutate} pre={case['pre']} form={case['form']}: "
    wrapped = wrap(criterion=crit, batch_evaluator=be, n_cores=case["n_cores"], history=h)
    wrapped({i: r for i, r in comp})
    viol = []
    n = sum(r for _, r in comp)
    want_calls = [XS[i] for i, r in comp for _ in range(r)]
    if len(crit.calls) != n or any(not np.array_equal(a, b) for a, b in zip(sorted(map(tuple, crit.calls)), sorted(map(tuple, want_calls)))):
        viol.append(tag + f"criterion called at {[c.tolist() for c in crit.calls]}")
    if n and (len(batches) != 1 or batches[0][0] != n or batches[0][1] > case["n_cores"] or batches[0][1] < 1):
        viol.append(tag + f"batches {batches} with at most {case['n_cores']} cores")
    if not np.array_equal(h.get_xs(), np.array(XS)):
        viol.append(tag + "stored parameter vectors changed")
    if h.get_n_fun() != n + sum(len(v) for v in before.values()):
        viol.append(tag + f"{h.get_n_fun()} evaluations counted")
        return viol
    dim = 1 if ft == "scalar" else 3
    want = {i: [np.asarray(v, float) for v in before.get(i, [])] for i in range(3)}
    for x, a in zip(crit.calls, crit.answers):
        i = next((j for j in range(3) if np.array_equal(XS[j], x)), None)
        if i is None:
            return viol
        w = np.full(dim, np.inf) if a is None else np.atleast_1d(np.where(np.isnan(a), np.inf, a)).astype(float)
        want[i].append(w)
    if h.get_n_fun() == 0:
        return viol
    vecs = h.get_fvecs([0, 1, 2])
    vals = h.get_fvals([0, 1, 2])
    for i in range(3):
        got = [np.atleast_1d(v) for v in np.asarray(vecs[i], float)]
        if len(got) != len(want[i]) or any(not np.array_equal(a, b) for a, b in zip(got, want[i])):
            viol.append(tag + f"point {i} stores {[g.tolist() for g in got]} instead of {[w.tolist() for w in want[i]]}")
        for v, f in zip(got, np.atleast_1d(vals[i])):
            if not oracles.close(f, aggregate(ft, v), 1e-12):
                viol.append(tag + f"value {f} of {v.tolist()}")
                break
    return viol


def run(cfg):
    return run_case({**cfg, "tap": False}, [oracles.record])


NO = {"disable_convergence": True}


def c_runs(tier):
    k = 1 if tier == "quick" else 2
    for cfg in product_cfg(functype=FT, mutate=[False, True], opts1=[NO], opts2=[{}, {**LINE, **batch(3, 2)}, batch(4, 4)]):
        syms = ["E", "N", "I", "M", "P", "Q"] if cfg["functype"] != "scalar" else ["E", "N", "I", "M"]
        for dev in deviation_sets(12, syms, k):
            yield {**cfg, "dev": dev, "iters": 4}
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"], mutate=[True], jitter=[0.2], opts1=[{"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 2},
                           "acceptance_decider_options": {"n_max": 6}}], opts2=[{}, {"n_evals_at_start": 3}, {"acceptance_decider": "naive_noisy"}]):
        for dev in deviation_sets(14, ["E", "N"], 1):
            yield {**cfg, "dev": dev, "iters": 3}


SUBS = [
    Sub("batches", c_batches, r_batches, what="all requests x all answer assignments against an independent record"),
    Sub("runs", c_runs, run, what="full optimizations: every criterion call is recorded once, at its point, unaltered"),
]
