"""P08: runs are reproducible and isolated from each other."""
import copy
import itertools
import os
import pickle
import random
import struct
import sys
import threading

import numpy as np

from mc import driver
from mc.core import Res, Sub, h64
from mc.runs import FT

LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of all interleavings of two real optimizations under a controlled scheduler (preemption bounded), all ordered pairs and triples of runs in one process"
RULE = ("schedules of two optimizations with scheduling points at every criterion batch (preemption bound 2, thorough 3) and single preemptions at every "
        "function call inside the optimizer; all ordered pairs (triples) of configurations in one process; global random states; "
        "non-trivial: the two runs overlap or follow each other and evaluate more than the start point")
ASSUMPTIONS = ["interleaving at the granularity of function calls of the optimizer", "numba runs in interpreted mode"]

NO = {"disable_convergence": True}
SHARED_ALGO = {"maxiter": 4}
CONFIGS = [
    {"functype": "scalar", "iters": 3, "opts": NO},
    {"functype": "least_squares", "iters": 3, "opts": NO},
    {"functype": "likelihood", "iters": 3, "bounds": "nm", "opts": NO},
    {"functype": "scalar", "d": 3, "iters": 2, "opts": {**NO, "sampler": "random_hull"}},
    {"functype": "least_squares", "d": 1, "iters": 3, "bounds": "L>", "opts": {**NO, "sampler": "random_interior", "model_fitter": "ridge"}},
    {"functype": "least_squares", "d": 3, "iters": 2, "opts": {**NO, "sampler_options": {"algo_options": {"ftol": 1e-4}, "hardness": 2.0}}},
    {"functype": "least_squares", "iters": 2, "bounds": "nn", "opts": {**NO, "cube_subsolver": "fallback_multistart"}},
    {"functype": "least_squares", "iters": 2, "opts": {"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 3}, "acceptance_decider_options": {"n_max": 5}}},
    {"functype": "least_squares", "iters": 3, "base": "sin", "opts": {**NO, "batch_size": 4, "acceptance_decider": "classic_line_search"}},
    {"functype": "scalar", "iters": 3, "base": "sin", "opts": {**NO, "sample_filter": "clustering", "radius_options": {"initial_radius": 0.7, "shrinking_factor": 0.3}}},
    {"functype": "scalar", "iters": 3, "base": "rosen", "opts": {**NO, "model_fitter": "powell", "seed": 7, "sampler_options": {"n_points_randomsearch": 3, "criterion": "determinant"}}},
]


def fingerprint(run):
    if run.exc is not None:
        return ("exc", type(run.exc).__name__, str(run.exc)[:200])
    r = run.res
    return (
        tuple(x.tobytes() for x, _, _ in run.env.calls),
        np.asarray(r["solution_x"], float).tobytes(), repr(float(r["solution_criterion"])), str(r["message"]),
        tuple((repr(float(s.trustregion.radius)), s.trustregion.shape, int(s.index), bool(s.accepted), repr(float(s.rho)),
               tuple(np.atleast_1d(s.model_indices).astype(int).tolist()),
               np.asarray(s.model.linear_terms, float).tobytes()) for s in r["states"]),
    )


def differ(a, b):
    if a == b:
        return None
    if a[0] == "exc" or b[0] == "exc":
        return f"{a[:3] if a[0] == 'exc' else 'ok'} versus {b[:3] if b[0] == 'exc' else 'ok'}"
    for k, (x, y) in enumerate(zip(a[0], b[0])):
        if x != y:
            return f"evaluation {k} at {np.frombuffer(x).tolist()} instead of {np.frombuffer(y).tolist()}"
    if len(a[0]) != len(b[0]):
        return f"{len(a[0])} evaluations instead of {len(b[0])}"
    return "same evaluations but different result or states"


def in_child(f):
    """Run f in a forked process, so that it neither sees nor leaves state."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            out = ("ok", f())
        except BaseException as e:  # noqa: BLE001
            import traceback

            out = ("err", f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
        with os.fdopen(wr, "wb") as fh:
            pickle.dump(out, fh)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child process died")
    kind, val = pickle.loads(data)
    if kind == "err":
        raise RuntimeError(val)
    return val


def one(cfg):
    return fingerprint(driver.run_opt(cfg))


# ------------------------------------------------------------------- runs that follow each other


def c_sequences(tier):
    n = len(CONFIGS)
    for i in range(n):
        yield {"seq": [i]}
    for i, j in itertools.product(range(n), repeat=2):
        yield {"seq": [i, j]}
    if tier != "quick":
        for t in itertools.product(range(n), repeat=3):
            yield {"seq": list(t)}
    else:
        for i in range(n):
            yield {"seq": [i, (i + 1) % n, i]}


_FRESH = {}


def fresh_run(i):
    """The run of a configuration in a process that ran nothing before (worker processes run nothing themselves)."""
    if i not in _FRESH:
        _FRESH[i] = in_child(lambda: one(CONFIGS[i]))
    return _FRESH[i]


def r_sequences(case):
    seq = case["seq"]
    fresh = {i: fresh_run(i) for i in set(seq)}
    got = in_child(lambda: [one(CONFIGS[i]) for i in seq])
    viol = []
    for pos, i in enumerate(seq):
        d = differ(got[pos], fresh[i])
        if d:
            viol.append(f"configuration {i} as number {pos} of the sequence {seq}: {d}")
            break
    n = sum(len(g[0]) if g[0] != "exc" else 0 for g in got)
    return Res(viol, nontrivial=n > len(seq), outcome=h64(got), states=[h64(seq[: k + 1]) for k in range(len(seq))], transitions=len(seq), sample=case)


# ------------------------------------------------------------------- the same options with different values

VALUES = {
    "radius_options": {"initial_radius": [0.2, 0.5], "shrinking_factor": [0.3, 0.6], "expansion_factor": [1.5, 3.0], "rho_decrease": [0.05, 0.3], "rho_increase": [0.1, 0.9],
                       "max_radius": [0.2, 2.0], "large_step": [0.1, 0.95]},
    "sampler_options": {"hardness": [1.0, 3.0], "n_points_randomsearch": [1, 4], "criterion": [None, "distance", "determinant"], "algo_options": [{"ftol": 1e-1}, {"ftol": 1e-8}]},
    "acceptance_decider_options": {"min_improvement": [0.0, 0.5], "speculative_sampling_radius_factor": [0.4, 1.5], "n_max": [5, 8], "n_min": [2, 5]},
    "stagnation_options": {"min_relative_step": [0.01, 0.9], "min_relative_step_keep": [0.0, 0.9], "drop": [False, True], "sample_increment": [1, 2], "max_trials": [1, 3]},
    "subsolver_options": {"maxiter": [1, 20], "conjugate_gradient_method": ["cg", "trsbox"], "k_easy": [0.01, 0.9], "k_hard": [0.02, 0.9]},
    "model_fitter_options": {"l2_penalty_linear": [0.0, 3.0], "l2_penalty_square": [0.1, 5.0], "p_square": [1.0, 0.2]},
    "sample_filter_options": {"n_max_factor": [1, 3], "strictness": [1e-10, 1e-1], "shape": ["sphere", "cube"]},
    "variance_estimator_options": {"max_distance_factor": [0.5, 5.0], "min_n_evals": [2, 4]},
    "noise_adaptation_options": {"rho_noise_n_draws": [2, 4], "min_share_high_rho": [0.1, 0.95], "min_share_low_rho": [0.1, 0.95]},
}
COMPONENTS_OF = {
    "sampler_options": [{"sampler": "optimal_hull"}, {"sampler": "random_hull"}],
    "acceptance_decider_options": [{"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 2}}, {"acceptance_decider": "classic_line_search", "batch_size": 5}, {}],
    "model_fitter_options": [{"model_fitter": "ridge"}, {"model_fitter": "tranquilo"}],
    "sample_filter_options": [{"sample_filter": "drop_excess"}, {"sample_filter": "keep_all"}],
    "variance_estimator_options": [{"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 2}, "acceptance_decider_options": {"n_max": 6}}],
    "noise_adaptation_options": [{"noisy": True, "acceptance_decider_options": {"n_max": 6}}],
}
TOP = {"sampler": ["optimal_hull", "random_hull", "random_interior"], "model_fitter": ["ols", "ridge", "powell", "tranquilo"], "sample_size": [3, 5], "seed": [1, 2],
       "sphere_subsolver": ["gqtpar", "gqtpar_fast", "fallback_norm_constraint"], "cube_subsolver": ["bntr", "bntr_fast", "fallback_cube"], "sample_filter": ["keep_all", "drop_excess", "clustering"],
       "search_radius_factor": [1.0, 6.0], "batch_size": [1, 3], "acceptance_decider": ["classic", "naive_noisy"], "n_evals_per_point": [1, 2], "n_evals_at_start": [1, 3]}


def c_options(tier):
    for ft in FT if tier != "quick" else FT[:2]:
        for bounds in [None, "nm"] if tier != "quick" else [None] if ft == "scalar" else ["nm"]:
            if tier == "quick" and ft != "scalar":  # the second problem class only for what depends on it
                yield from ({"ft": ft, "bounds": bounds, "opts": [{**NO, k: {e: v}} for v in VALUES[k][e]], "what": f"{k}.{e}", "pairs": "cycle"}
                            for k, e in (("sampler_options", "criterion"), ("subsolver_options", "conjugate_gradient_method"), ("radius_options", "initial_radius")))
                continue
            for bundle, entries in VALUES.items():
                for comp in COMPONENTS_OF.get(bundle, [{}]):
                    for key, vals in entries.items():
                        opts = []
                        for v in vals:
                            o = {**NO, **comp}
                            o[bundle] = {**comp.get(bundle, {}), key: v}
                            opts.append(o)
                        yield {"ft": ft, "bounds": bounds, "opts": opts, "what": f"{bundle}.{key}", "pairs": "cycle" if tier == "quick" else "all"}
            for key, vals in TOP.items():
                yield {"ft": ft, "bounds": bounds, "opts": [{**NO, key: v} for v in vals] + [dict(NO)], "what": key, "pairs": "cycle" if tier == "quick" else "all"}


def r_options(case):
    cfgs = [{"functype": case["ft"], "bounds": case["bounds"], "base": "sin", "iters": 2, "opts": o} for o in case["opts"]]
    fresh = [in_child(lambda c=c: one(c)) for c in cfgs]
    m = len(cfgs)
    seqs = [list(range(m)) + [0]] if case["pairs"] == "cycle" else [list(t) for t in itertools.permutations(range(m), 2)]
    viol, n = [], 0
    for seq in seqs:
        got = in_child(lambda seq=seq: [one(cfgs[i]) for i in seq])
        n += len(seq) - 1
        for pos, i in enumerate(seq):
            d = differ(got[pos], fresh[i])
            if d:
                viol.append(f"{case['what']}: a run with {case['opts'][i]} after {[case['opts'][k] for k in seq[:pos]]}: {d}")
                break
        if viol:
            break
    return Res(viol, outcome=h64(fresh), states=[h64(case, k) for k in range(len(cfgs))], transitions=n, extra={"distinct_behaviours": len(set(map(repr, fresh)))}, sample=case)


# ------------------------------------------------------------------- global state and user objects


def c_globals(tier):
    for i in range(len(CONFIGS)):
        for s in range(2 if tier == "quick" else 12):
            yield {"cfg": i, "state": s}


def r_globals(case):
    cfg = CONFIGS[case["cfg"]]
    fresh = fresh_run(case["cfg"])
    viol = []

    def go():
        out = []
        random.seed(case["state"])
        np.random.seed(case["state"] * 7 + 1)
        for _ in range(case["state"]):
            np.random.standard_normal()
            random.random()
        st_np, st_py = np.random.get_state(), random.getstate()
        err0 = np.geterr()
        fp = one(cfg)
        now = np.random.get_state()
        if now[0] != st_np[0] or not np.array_equal(now[1], st_np[1]) or now[2:] != st_np[2:]:
            out.append("the global numpy random state was changed")
        if random.getstate() != st_py:
            out.append("the global python random state was changed")
        if np.geterr() != err0:
            out.append("numpy's error handling was changed")
        return fp, out

    fp, viol = in_child(go)
    d = differ(fp, fresh)
    if d:
        viol.append("depends on the global random state: " + d)
    return Res([f"configuration {case['cfg']}: {v}" for v in viol], outcome=h64(fp), states=[h64(case)], transitions=1, sample=case)


def user_objects():
    """Option objects of all kinds, as dicts and as named tuples."""
    from tranquilo import options as o

    base = {
        "radius_options": {"initial_radius": 0.3, "shrinking_factor": 0.4},
        "sampler_options": {"algo_options": {"ftol": 1e-3}, "hardness": 1.5},
        "acceptance_decider_options": {"min_improvement": 1e-3},
        "stagnation_options": {"min_relative_step": 0.2, "max_trials": 2},
        "subsolver_options": {"maxiter": 15, "conjugate_gradient_method": "trsbox"},
        "model_fitter_options": {"p_linear": 0.3, "l2_penalty_square": 0.2},
        "sample_filter_options": {"strictness": 1e-8, "n_max_factor": 2},
        "noise_adaptation_options": {"rho_noise_n_draws": 3},
        "variance_estimator_options": {"min_n_evals": 2},
    }
    named = {
        "radius_options": o.RadiusOptions(initial_radius=0.3),
        "sampler_options": o.SamplerOptions(algo_options={"ftol": 1e-3}),
        "acceptance_decider_options": o.AcceptanceOptions(n_max=6),
        "stagnation_options": o.StagnationOptions(min_relative_step_keep=0.1, drop=True, max_trials=2),
        "subsolver_options": o.SubsolverOptions(maxiter=12),
        "model_fitter_options": o.FitterOptions(p_square=0.7),
        "sample_filter_options": o.FilterOptions(n_max_factor=2),
        "noise_adaptation_options": o.NoiseAdaptationOptions(rho_noise_n_draws=3),
        "variance_estimator_options": o.VarianceEstimatorOptions(min_n_evals=2),
    }
    return {"dict": base, "named": named}


def c_objects(tier):
    for ft in FT:
        for kind in ("dict", "named"):
            for bounds in (None, "nm", "Lf"):
                for noisy in (False, True):
                    for n in (1, 2):
                        yield {"ft": ft, "kind": kind, "bounds": bounds, "noisy": noisy, "runs": n}


def r_objects(case):
    fun = driver.need("tranquilo.tranquilo", "_tranquilo")
    objs = user_objects()[case["kind"]]
    cfg = driver.full_cfg({"functype": case["ft"], "bounds": case["bounds"], "iters": 3})
    x, lb, ub = driver.problem(cfg)
    keep = copy.deepcopy((x, lb, ub, objs))
    fps = []
    viol = []
    for _ in range(case["runs"]):
        env = driver.Env(case["ft"], "quad", 2)
        be = driver.BatchEvaluator(env)
        res = fun(functype=case["ft"], criterion=env, x=x, lower_bounds=lb, upper_bounds=ub, batch_evaluator=be, noisy=case["noisy"],
                  stopping_max_iterations=3, disable_convergence=True, **objs)
        fps.append(([c[0].tobytes() for c in env.calls], np.asarray(res["solution_x"]).tobytes()))
        for name, a, b in (("start vector", x, keep[0]), ("lower bounds", lb, keep[1]), ("upper bounds", ub, keep[2])):
            if a is not None and not np.array_equal(a, b):
                viol.append(f"the {name} was modified")
        for k in objs:
            if objs[k] != keep[3][k]:
                viol.append(f"{k} was modified: {objs[k]!r} instead of {keep[3][k]!r}")
        # the result may not be tied to the user's start vector
    if len(fps) == 2 and fps[0] != fps[1]:
        viol.append("the second run with the same objects differs from the first")
    return Res(viol, outcome=h64(fps[0]), states=[h64(case)], transitions=case["runs"], sample=case)


def c_seeds(tier):
    for i in (0, 1, 2, 3, 4, 7, 9):
        yield {"cfg": i, "seeds": [0, 1, 5, 925408] if tier == "quick" else list(range(12)) + [925408]}


def r_seeds(case):
    cfg = CONFIGS[case["cfg"]]
    viol, prints = [], []
    for s in case["seeds"]:
        c = {**cfg, "opts": {**cfg["opts"], "seed": s}}
        a, b = one(c), one(c)
        d = differ(b, a)
        if d:
            viol.append(f"seed {s}: two runs differ: {d}")
        prints.append(a)
    for (s, a), (t, b) in itertools.combinations(list(zip(case["seeds"], prints)), 2):
        if a[0] != "exc" and a[0] == b[0]:
            viol.append(f"seeds {s} and {t} evaluate the same points")
    return Res(viol[:3], outcome=h64(prints), states=[h64(case["cfg"], s) for s in case["seeds"]], transitions=2 * len(case["seeds"]), sample=case)


# ------------------------------------------------------------------- interleavings


class Scheduler:
    """Runs threads one at a time; at a scheduling point the running thread may be switched."""

    def __init__(self, n, choices):
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.choices = choices  # at point k: 0 = continue, 1 = switch
        self.points = 0
        self.enabled = []  # whether a switch was possible at each point
        self.finished = threading.Semaphore(0)

    def point(self, tid):
        k = self.points
        self.points += 1
        others = [i for i in range(len(self.done)) if i != tid and not self.done[i]]
        self.enabled.append(bool(others))
        if others and k < len(self.choices) and self.choices[k]:
            nxt = others[0]
            self.sems[nxt].release()
            self.sems[tid].acquire()

    def exit(self, tid):
        self.done[tid] = True
        others = [i for i in range(len(self.done)) if not self.done[i]]
        if others:
            self.sems[others[0]].release()
        else:
            self.finished.release()


def run_schedule(cfgs, choices):
    sched = Scheduler(len(cfgs), choices)
    out = [None] * len(cfgs)

    def body(tid):
        class BE(driver.BatchEvaluator):
            def __call__(self, *a, **k):
                sched.point(tid)
                return super().__call__(*a, **k)

        sched.sems[tid].acquire()
        try:
            out[tid] = fingerprint(driver.run_opt(cfgs[tid], be_cls=BE))
        finally:
            sched.exit(tid)

    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(cfgs))]
    for t in ths:
        t.start()
    sched.sems[0].release()
    sched.finished.acquire()
    for t in ths:
        t.join()
    return out, sched


PAIRS = [(0, 0), (1, 1), (0, 1), (1, 5), (5, 5), (2, 6), (6, 1), (3, 9), (7, 1), (8, 1), (4, 4), (10, 0), (7, 7), (6, 6)]


def c_interleave(tier):
    bound = 2 if tier == "quick" else 3
    for i, j in PAIRS if tier != "quick" else PAIRS[1::2]:
        for first in range(0, 3):
            yield {"pair": [i, j], "bound": bound, "first": first}


def r_interleave(case):
    """All schedules with at most `bound` preemptions; case['first'] splits the space by the number of preemptions modulo 3."""
    i, j = case["pair"]
    cfgs = [CONFIGS[i], CONFIGS[j]]
    viol = []

    def go():
        want = [one(c) for c in cfgs]
        n_sched, seen = 0, set()

        def explore(prefix, used):
            nonlocal n_sched
            got, sched = run_schedule(cfgs, prefix)
            n_sched += 1
            seen.add(tuple(prefix))
            for t in (0, 1):
                d = differ(got[t], want[t])
                if d:
                    return f"schedule {prefix} (1 = switch): run {t} differs from its undisturbed run: {d}"
            if used == case["bound"]:
                return None
            for p in range(len(prefix), sched.points):
                if not sched.enabled[p]:
                    continue
                if used == 0 and p % 3 != case["first"]:
                    continue
                d = explore(prefix + [0] * (p - len(prefix)) + [1], used + 1)
                if d:
                    return d
            return None

        return explore([], 0), n_sched, [h64(i, j, s) for s in seen]

    bad, n, states = in_child(go)
    if bad:
        viol.append(f"configurations {case['pair']}: {bad}")
    return Res(viol, outcome=f"{case['pair']}:{n}", states=states, transitions=n, extra={"schedules": n}, sample={**case, "schedules": n})


def c_preempt(tier):
    pairs = [(1, 5), (2, 6)] if tier == "quick" else PAIRS
    n_parts = 16
    for p in pairs:
        for part in range(n_parts):
            yield {"pair": list(p), "part": part, "parts": n_parts}


def r_preempt(case):
    """Run A, stop it at its k-th call of an optimizer function, run B completely, resume A: for every k."""
    i, j = case["pair"]
    src = os.path.dirname(os.path.abspath(sys.modules["tranquilo.tranquilo"].__file__)) if "tranquilo.tranquilo" in sys.modules else None
    if src is None:
        import tranquilo.tranquilo as t

        src = os.path.dirname(os.path.abspath(t.__file__))
    A = {**CONFIGS[i], "iters": 2}
    B = {**CONFIGS[j], "iters": 1}

    def with_preemption(k):
        n = [0]
        got_b = []

        def prof(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(src):
                n[0] += 1
                if n[0] == k:
                    sys.setprofile(None)
                    got_b.append(one(B))
                    sys.setprofile(prof)

        sys.setprofile(prof)
        try:
            a = one(A)
        finally:
            sys.setprofile(None)
        return a, (got_b[0] if got_b else None), n[0]

    def go():
        want_a, want_b = one(A), one(B)
        _, _, total = with_preemption(0)
        cnt = 0
        for k in range(1 + case["part"], total + 1, case["parts"]):
            a, b, _ = with_preemption(k)
            cnt += 1
            d = differ(a, want_a) or (b is not None and differ(b, want_b))
            if d:
                return f"preempted at call {k} of {total}: {d}", cnt, total
        return None, cnt, total

    bad, cnt, total = in_child(go)
    return Res([f"configurations {case['pair']}: {bad}"] if bad else [], outcome=total, states=[h64(case["pair"], k) for k in range(1 + case["part"], total + 1, case["parts"])],
               transitions=cnt, extra={"preemption_points": cnt}, sample={**case, "total_points": total})


SUBS = [
    Sub("sequences", c_sequences, r_sequences, what="all ordered pairs (and triples) of configurations in one process versus fresh processes"),
    Sub("options", c_options, r_options, what="ordered pairs of runs in one process that set the same option to different values"),
    Sub("globals", c_globals, r_globals, what="global random states before and after"),
    Sub("objects", c_objects, r_objects, what="user objects are left alone and can be reused"),
    Sub("seeds", c_seeds, r_seeds, what="repeated and different seeds"),
    Sub("interleavings", c_interleave, r_interleave, timeout=400, chunk=1, what="all schedules of two runs at criterion batches within the preemption bound"),
    Sub("preemptions", c_preempt, r_preempt, timeout=400, chunk=1, what="one preemption at every function call inside the optimizer"),
]
_ = struct
