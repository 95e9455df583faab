"""P09: parallel evaluation does not change the optimization."""
import itertools
import threading

import numpy as np

from mc import driver
from mc.checks.p08 import differ, fingerprint
from mc.core import Res, Sub, h64
from mc.runs import FT, LINE, product_cfg

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of completion orders of the batches of the real optimizer under a controlled batch evaluator"
RULE = ("every permutation of the completion order in every batch (up to 4 evaluations, larger batches: all rotations and reversals), all numbers of cores, "
        "built-in and user supplied evaluators; non-trivial: some batch has at least two evaluations")
ASSUMPTIONS = ["the criterion is a deterministic function of the parameters", "numba runs in interpreted mode"]
NO = {"disable_convergence": True}


def parallel_print(run):
    """Fingerprint in which the order of calls within a batch does not matter."""
    fp = fingerprint(run)
    if fp[0] == "exc":
        return fp
    calls = list(fp[0])
    out = []
    for b in run.be.batches:
        out.extend(sorted(calls[b["first"]: b["first"] + b["n"]]))
    return (tuple(out),) + fp[1:]


def perms(n):
    if n <= 4:
        return list(itertools.permutations(range(n)))
    base = list(range(n))
    out = [tuple(base), tuple(base[::-1])]
    out += [tuple(base[k:] + base[:k]) for k in range(1, n)]
    out += [tuple([k] + [i for i in base if i != k]) for k in range(1, n)]
    return out


def cfgs():
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"], base=["quad", "sin"],
                           opts1=[NO], opts2=[{"batch_size": 2}, {"batch_size": 3, **LINE}, {"batch_size": 4, **LINE}, {"batch_size": 4, "sample_filter": "keep_all"}, {}]):
        yield {**cfg, "iters": 4}
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"], opts=[{"noisy": True, "batch_size": b, "noise_adaptation_options": {"rho_noise_n_draws": 2},
                                                                 "acceptance_decider_options": {"n_max": 5}} for b in (1, 3)]):
        yield {**cfg, "iters": 2, "base": "sin"}


def c_orders(tier):
    for cfg in cfgs():
        yield cfg


def r_orders(cfg):
    base = driver.run_opt(cfg)
    want = parallel_print(base)
    if want[0] == "exc":
        return Res([f"optimizer raised {want}"])
    viol, n, states = [], 0, set()
    sizes = [b["n"] for b in base.be.batches]
    # one batch at a time in every order; then all batches reversed, all rotated
    plans = []
    seen_sizes = {}
    for b, s in enumerate(sizes):
        if s < 2:
            continue
        seen_sizes[s] = seen_sizes.get(s, 0) + 1
        for p in perms(s)[1:]:
            plans.append({b: p})
    plans.append("reverse")
    plans.append("rotate")
    for plan in plans:
        def order(k, m, plan=plan):
            if plan == "reverse":
                return list(range(m))[::-1]
            if plan == "rotate":
                return list(range(1, m)) + [0] if m else []
            p = plan.get(k)
            return p if p is not None and len(p) == m else range(m)

        r = driver.run_opt(cfg, be_kwargs={"order": order})
        n += 1
        states.add(h64(str(plan), sizes))
        d = differ(parallel_print(r), want)
        if d:
            viol.append(f"completion order {plan}: {d}")
            break
    return Res(viol, nontrivial=any(s > 1 for s in sizes), outcome=tuple(sizes), states=states, transitions=n, extra={"schedules": n},
               sample={"config": cfg, "batches": sizes, "orders": n})


def c_cores(tier):
    for cfg in product_cfg(functype=FT, bounds=[None, "nm"], base=["quad", "sin"], opts1=[NO], opts2=[{}, LINE], batch_size=[2, 3, 4, 5, 7]):
        yield {**cfg, "iters": 4}


def r_cores(cfg):
    """n_cores and batch sizes: same run for every number of cores, never more cores than allowed, full batches."""
    cfg = dict(cfg)
    bs = cfg.pop("batch_size")
    viol, want, n = [], None, 0
    sizes = ()
    for cores in [None] + list(range(1, bs + 1)):
        opts = {**cfg["opts"], "batch_size": bs}
        if cores is not None:
            opts["n_cores"] = cores
        r = driver.run_opt({**cfg, "opts": opts, "tap": True})
        n += 1
        fp = parallel_print(r)
        if fp[0] == "exc":
            viol.append(f"n_cores={cores}: {fp}")
            break
        if want is None:
            want = fp
        d = differ(fp, want)
        if d:
            viol.append(f"n_cores={cores} batch_size={bs}: {d}")
        for b in r.be.batches:
            if not 1 <= b["n_cores"] <= (cores or 1):
                viol.append(f"a batch was requested with {b['n_cores']} cores, allowed are {cores or 1}")
                break
        viol += batches_ok(r, bs, bool(cfg["opts"].get("acceptance_decider")))
        sizes = tuple(b["n"] for b in r.be.batches)
        if viol:
            break
    # long runs with all default components; n_cores alone implies the batch size
    want = None
    for o in [{"batch_size": bs}] + [{"batch_size": bs, "n_cores": c} for c in sorted({1, 2, bs - 1, bs})] + [{"n_cores": bs}]:
        if viol:
            break
        r = driver.run_opt({**cfg, "iters": 14, "opts": {**cfg["opts"], **o}})
        n += 1
        fp = parallel_print(r)
        want = want or fp
        d = differ(fp, want)
        if d:
            viol.append(f"{o} differs from batch_size={bs}: {d}")
    return Res(viol[:3], nontrivial=max(sizes or [0]) > 1, outcome=sizes, states=[h64(cfg, bs, s) for s in sizes], transitions=n, extra={"schedules": n}, sample={"config": cfg, "batches": list(sizes)})


def batches_ok(r, bs, line):
    viol = []
    ev = r.tap.events
    fresh = True
    for e in ev:
        if e["kind"] == "filter":
            fresh = True
        elif e["kind"] == "sample" and fresh:
            fresh = False
            if e["n"] % bs:
                viol.append(f"{e['n']} new model points were requested with batch size {bs}")
        elif e["kind"] == "accept":
            n = e["n_fun_after"] - e["n_fun_before"]
            if line and n != bs:
                viol.append(f"an acceptance step used {n} evaluations with batch size {bs}")
            if not line and n != 1:
                viol.append(f"an acceptance step without line search used {n} evaluations")
    return viol[:2]


# ------------------------------------------------------------------- real evaluators


def quad_scalar(x):
    return float((x - 0.3) @ (x - 0.3) + 0.1 * np.sin(5 * x).sum())


def quad_vector(x):
    return np.concatenate([x - 0.3, [0.1 * np.sin(5 * x).sum() + 0.5]])


def fail_some(x):
    if x[0] > 1.02:
        raise ValueError("too large")
    return quad_vector(x)


def evaluator(kind):
    import traceback

    def run(f, a):
        try:
            return f(a)
        except Exception:
            return traceback.format_exc()

    if kind in ("joblib", "pathos"):
        return kind

    def threads(criterion, arguments, *, n_cores=1, error_handling="continue"):
        """Completes the evaluations of a batch in reversed order."""
        arguments = list(arguments)
        out = [None] * len(arguments)
        evs = [threading.Event() for _ in arguments]

        def body(i):
            if i + 1 < len(arguments):
                evs[i + 1].wait(60)
            out[i] = run(criterion, arguments[i])
            evs[i].set()

        ths = [threading.Thread(target=body, args=(i,)) for i in range(len(arguments))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return out

    def plain(criterion, arguments, *, n_cores=1, error_handling="continue"):
        return [run(criterion, a) for a in arguments]

    def positional(criterion, arguments, n_cores, error_handling):
        return [run(criterion, a) for a in arguments]

    return {"threads": threads, "plain": plain, "positional": positional}[kind]


def c_evaluators(tier):
    for ft, fun in (("scalar", "quad_scalar"), ("least_squares", "quad_vector"), ("likelihood", "quad_vector"), ("least_squares", "fail_some")):
        for bs in (1, 2, 4):
            yield {"ft": ft, "fun": fun, "bs": bs, "real": bs == 2 and (tier != "quick" or ft == "least_squares")}


def r_evaluators(case):
    f = globals()[case["fun"]]
    solve = driver.need("tranquilo.tranquilo", "_tranquilo")
    kinds = ["plain", "positional", "threads", "joblib"] + (["pathos"] if case["real"] else [])
    viol, want = [], None
    for kind in kinds:
        cores = [1] if kind in ("joblib", "pathos") and not case["real"] else sorted({1, case["bs"]})
        for n_cores in cores:
            try:
                ev = evaluator(kind)
                res = solve(functype=case["ft"], criterion=f, x=np.array([1.0, -0.5]), batch_evaluator=ev, batch_size=case["bs"], n_cores=n_cores,
                            stopping_max_iterations=4, disable_convergence=True)
            except ImportError:
                continue
            except NotImplementedError as e:
                if kind == "pathos":  # pathos is an optional dependency
                    continue
                raise e
            fp = (np.asarray(res["solution_x"]).tobytes(), float(res["solution_criterion"]), np.asarray(res["tranquilo_history"].get_xs()).tobytes())
            if want is None:
                want = fp
            elif fp != want:
                viol.append(f"{kind} with {n_cores} cores: solution {np.asarray(res['solution_x']).tolist()} instead of {np.frombuffer(want[0]).tolist()}")
    return Res(viol, outcome=h64(want), states=[h64(case)], transitions=len(kinds), sample=case)


def c_invalid(tier):
    for bs, nc in itertools.product(range(1, 5), repeat=2):
        yield {"bs": bs, "nc": nc}


def r_invalid(case):
    r = driver.run_opt({"functype": "least_squares", "iters": 1, "opts": {"batch_size": case["bs"], "n_cores": case["nc"]}})
    bad = case["bs"] < case["nc"]
    viol = []
    if bad and r.exc is None:
        viol.append(f"batch_size {case['bs']} smaller than n_cores {case['nc']} was accepted")
    if not bad and r.exc is not None:
        viol.append(f"batch_size {case['bs']}, n_cores {case['nc']}: {r.exc}")
    return Res(viol, outcome=bad, states=[h64(case)], transitions=1)


SUBS = [
    Sub("orders", c_orders, r_orders, timeout=300, chunk=1, what="every completion order of every batch"),
    Sub("cores", c_cores, r_cores, timeout=200, chunk=1, what="all numbers of cores x batch sizes; sizes of the requested batches"),
    Sub("evaluators", c_evaluators, r_evaluators, timeout=300, chunk=1, what="joblib, pathos, thread based and plain user evaluators"),
    Sub("invalid", c_invalid, r_invalid, what="batch size versus number of cores"),
]
