"""Closes the optimizer with a controlled environment.

The environment is the user's criterion function plus the batch evaluator. It answers the
k-th evaluation of a run either by a default policy or by a deviation from it, records
everything, and so owns all nondeterminism of a run. `run_opt(cfg)` executes the real
optimizer for one fully specified configuration and returns a `Run`, on which the oracles
below are evaluated.
"""
import copy
import itertools
import math
import traceback

import numpy as np

from mc.core import h64, need

# answers of the environment, simplest first
SCALAR_ALPHABET = ["B", "T", "W", "E", "N", "I", "M"]
VECTOR_ALPHABET = ["B", "T", "W", "E", "N", "I", "M", "P", "Q"]


class Boom(Exception):
    pass


# ======================================================================================
# Problems
# ======================================================================================


def base_function(name, d):
    t = np.array([0.5, -0.25, 0.75][:d])
    if name == "quad":
        return lambda x: float(((x - t) ** 2) @ np.array([1.0, 3.0, 0.5][:d]) + 0.5 * np.prod(x - t + 0.1))
    if name == "rosen":
        return lambda x: float((100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2).sum() + (1 - x[0]) ** 2)
    if name == "lin":
        return lambda x: float(x @ np.array([1.0, -2.0, 0.5][:d]))
    if name == "flat":
        return lambda x: 3.0
    if name == "sin":
        return lambda x: float(np.sin(3 * x).sum() + 0.1 * (x @ x))
    raise KeyError(name)


def base_vector(name, d):
    t = np.array([0.5, -0.25, 0.75][:d])
    if name in ("quad", "rosen"):
        def f(x):
            y = x - t
            if name == "rosen" and d > 1:
                return np.concatenate([10 * (x[1:] - x[:-1] ** 2), 1 - x[:-1]])
            return np.concatenate([y, [y.sum() + 0.5 * y[0] ** 2 + 0.25]])
        return f
    if name == "lin":
        return lambda x: np.concatenate([x, [x @ np.array([1.0, -2.0, 0.5][:d])]])
    if name == "flat":
        return lambda x: np.array([1.0, -1.0, 0.5])
    if name == "sin":
        return lambda x: np.concatenate([np.sin(3 * x), [0.3 * x.sum()]])
    raise KeyError(name)


def scaled(functype, f, scale):
    """f in other units: parameters times sx, values times sf plus off."""
    if not scale:
        return f
    sx, sf, off = scale
    if functype == "scalar":
        return lambda x: sf * f(x / sx) + off
    if functype == "likelihood":
        return lambda x: sf * f(x / sx) + off / len(x)
    return lambda x: sf * f(x / sx) + np.sqrt(off / len(x))


def start_point(d):
    return np.array([1.0, 0.6, -0.8][:d])


def bounds_for(pattern, x, r):
    """Bounds of one coordinate, by letter, relative to the start x and the radius r."""
    inf = np.inf
    table = {
        "-": (-inf, inf),
        "f": (x - 100.0, x + 100.0),  # far away
        "l": (x, x + 5.0),  # start on the lower bound
        "u": (x - 5.0, x),  # start on the upper bound
        "n": (x - 0.4 * r, x + 0.3 * r),  # within the radius on both sides
        "L": (x - 0.5 * r, inf),  # only a lower bound, near
        "U": (-inf, x + 0.5 * r),  # only an upper bound, near
        "j": (x - 1.02 * r, x + 1.01 * r),  # just outside the initial radius
        "m": (x - 1.5 * r, x + 3.0 * r),  # becomes binding later
    }
    return table[pattern]


# ======================================================================================
# The environment
# ======================================================================================


class Env:
    def __init__(self, functype, base, d, policy="f", deviations=(), mutate=False, suffix=None, acc=(), scale=None):
        self.ft = functype
        self.f = scaled(functype, base_function(base, d) if functype == "scalar" else base_vector(base, d), scale)
        self.policy = policy
        self.dev = {int(k): s for k, s in deviations}
        self.suffix = suffix  # (k, symbol): every call from k on
        self.calls = []  # (x, answer or None, symbol)
        self.best = None  # smallest finite value returned so far
        self.best_raw = None
        self.mutate = mutate
        # answers to the evaluations of acceptance steps, in order: symbols or numbers c,
        # which mean "current value - c * expected improvement"
        self.acc = list(acc)
        self.acc_ctx = None  # (current value, expected improvement) while accepting
        self.n_acc = 0

    # value of an answer under the documented aggregation
    def value(self, ans):
        return aggregate(self.ft, ans)

    def _with_value(self, raw, val):
        """An answer of the right type whose aggregated value is val."""
        if self.ft == "scalar":
            return float(val)
        raw = np.asarray(raw, dtype=float)
        out = np.zeros(len(raw))
        if self.ft == "likelihood":
            out[:] = raw - raw.sum() / len(raw)
            out[0] += val - out.sum()
        else:
            w = np.arange(1, len(raw) + 1, dtype=float)
            w /= math.sqrt(w @ w)
            out[:] = w * math.sqrt(max(val, 0.0))
        return out

    def _dec(self, v):
        return v * 0.7 if self.ft == "least_squares" else v - 0.5

    def _inc(self, v):
        return v * 1.5 + 0.1 if self.ft == "least_squares" else v + 0.5

    def answer(self, k, x):
        raw = self.f(x)
        if self.jitter:
            # deterministic "noise" that depends on the position in the run only
            raw = raw + self.jitter * (((k * 7) % 5) - 2) / 2
        sym = self.dev.get(k)
        if self.acc_ctx is not None:
            if sym is None and self.n_acc < len(self.acc):
                sym = self.acc[self.n_acc]
            self.n_acc += 1
            if not isinstance(sym, str) and sym is not None:
                cur, exp = self.acc_ctx
                val = cur - sym * exp
                return self._with_value(raw, max(val, 0.0) if self.ft == "least_squares" else val), "r"
        if sym is None and self.suffix is not None and k >= self.suffix[0]:
            sym = self.suffix[1]
        if sym is None:
            if self.policy == "f" or self.best is None:
                sym = "v"
            else:
                sym = {"down": "B", "up": "W", "tie": "T"}[self.policy]
        vec = self.ft != "scalar"
        nan, inf = np.nan, np.inf
        full = (lambda c: np.full(len(raw), c)) if vec else (lambda c: float(c))
        best = self.best if self.best is not None else 1.0
        if sym == "v":
            ans = raw
        elif sym == "B":
            ans = self._with_value(raw, self._dec(best))
        elif sym == "T":
            ans = self.best_raw if self.best_raw is not None else raw
            ans = np.array(ans) if vec else ans
        elif sym == "W":
            ans = self._with_value(raw, self._inc(self.worst))
        elif sym == "E":
            raise Boom("evaluation failed")
        elif sym == "N":
            ans = full(nan)
        elif sym == "I":
            ans = full(inf)
        elif sym == "M":
            ans = full(-inf)
        elif sym == "P":
            ans = np.array(raw, dtype=float)
            ans[0] = nan
        elif sym == "Q":
            ans = np.array(raw, dtype=float)
            ans[-1] = -inf if self.ft == "likelihood" else inf
        else:
            raise KeyError(sym)
        return ans, sym

    worst = 1.0
    jitter = None

    def __call__(self, x):
        k = len(self.calls)
        xc = np.array(x, dtype=float)
        self.calls.append([xc, None, "E"])
        if self.mutate:
            x[...] = 1e9
        ans, sym = self.answer(k, xc)
        self.calls[k][1] = np.array(ans, dtype=float)
        self.calls[k][2] = sym
        v = self.value(stored(self.ft, ans))
        if np.isfinite(v):
            if self.best is None or v < self.best:
                self.best, self.best_raw = v, ans
            self.worst = v if len(self.calls) == 1 else max(self.worst, v)
        return ans


def stored(functype, ans):
    """What the record must contain for an answer (None = exception)."""
    if ans is None:
        return None
    a = np.array(ans, dtype=float)
    a[np.isnan(a)] = np.inf
    return a


def aggregate(functype, fvec):
    fvec = np.atleast_1d(np.asarray(fvec, dtype=float))
    with np.errstate(all="ignore"):
        if functype == "scalar":
            return float(fvec[0])
        if functype == "likelihood":
            return float(fvec.sum())
        return float((fvec ** 2).sum())


class BatchEvaluator:
    """Follows the contract of the user supplied batch evaluators."""

    def __init__(self, env, order=None):
        self.env = env
        self.batches = []
        self.order = order  # batch index -> permutation rank of the execution order

    def __call__(self, criterion, arguments, *, n_cores=1, error_handling="continue", **kw):
        arguments = list(arguments)
        first = len(self.env.calls)
        n = len(arguments)
        seq = range(n)
        if self.order is not None:
            seq = self.order(len(self.batches), n)
        out = [None] * n
        for i in seq:
            try:
                out[i] = criterion(arguments[i])
            except Exception:
                if error_handling != "continue":
                    raise
                out[i] = traceback.format_exc()
        self.batches.append({"first": first, "n": n, "n_cores": n_cores, "error_handling": error_handling})
        return out


# ======================================================================================
# Taps: labelled observation points through the public plug-in seams
# ======================================================================================


class Tap:
    def __init__(self, env=None):
        self.events = []
        self.env = env

    def acceptance(self, name, options=None):
        inner = need("tranquilo.acceptance_decision", "get_acceptance_decider")(name, options)
        tap = self

        def decider(subproblem_solution, state, noise_variance, history, wrapped_criterion,
                    search_radius_factor, batch_size, sample_points, rng):
            e = {
                "kind": "accept", "sol": subproblem_solution, "state": state, "noise_variance": noise_variance,
                "n_fun_before": history.get_n_fun(), "n_xs_before": history.get_n_xs(),
                "n_evals_current_before": len(history.get_fvals(int(state.index))),
                "requests": [],
            }

            def wc(eval_info):
                e["requests"].append(dict(eval_info))
                return wrapped_criterion(eval_info)

            tap.env.acc_ctx = (float(state.fval), float(subproblem_solution.expected_improvement))
            e["first_event"] = len(tap.events)
            try:
                out = inner(subproblem_solution=subproblem_solution, state=state, noise_variance=noise_variance,
                            history=history, wrapped_criterion=wc, search_radius_factor=search_radius_factor,
                            batch_size=batch_size, sample_points=sample_points, rng=rng)
            finally:
                tap.env.acc_ctx = None
            e["n_fun_after"] = history.get_n_fun()
            e["n_xs_after"] = history.get_n_xs()
            e["result"] = out
            if noise_variance is not None:
                e["current_fvals"] = np.array(history.get_fvals(int(state.index)))
                e["n_evals"] = {int(i): int(n) for i, n in history.get_n_evals(np.arange(history.get_n_xs())).items()}
            tap.events.append(e)
            return out

        return decider

    def filter(self, name, options=None):
        inner = need("tranquilo.filter_points", "get_sample_filter")(name, options)
        tap = self

        def sample_filter(xs, indices, state, target_size, history):
            out = inner(xs=xs, indices=indices, state=state, target_size=target_size, history=history)
            tap.events.append({
                "kind": "filter", "xs": np.array(xs), "indices": np.array(indices), "state": state,
                "target": target_size, "n_xs": history.get_n_xs(), "n_fun": history.get_n_fun(),
                "out_xs": np.array(out[0]), "out_indices": np.array(out[1]),
            })
            return out

        return sample_filter

    def sampler(self, name, options=None):
        inner = need("tranquilo.sample_points", "get_sampler")(name, options)
        tap = self

        def sampler(trustregion, n_points, existing_xs, rng):
            out = inner(trustregion=trustregion, n_points=n_points, existing_xs=existing_xs, rng=rng)
            tap.events.append({"kind": "sample", "region": trustregion, "n": n_points, "out": np.array(out)})
            return out

        return sampler


# ======================================================================================
# Runs
# ======================================================================================


class Run:
    def __init__(self, cfg, env, be, tap):
        self.cfg, self.env, self.be, self.tap = cfg, env, be, tap
        self.res = None
        self.exc = None
        self.tb = ""

    @property
    def states(self):
        return self.res["states"]

    @property
    def history(self):
        return self.res["tranquilo_history"]


DEFAULTS = {
    "functype": "scalar", "d": 2, "base": "quad", "bounds": None, "policy": "f", "dev": [], "suffix": None,
    "iters": 6, "opts": {}, "tap": False, "x": None, "mutate": False, "acc": [],
    "box": None, "bad_solver": None, "jitter": None, "scale": None,
}


def full_cfg(cfg):
    out = dict(DEFAULTS)
    out.update(cfg)
    return out


def problem(cfg):
    cfg = full_cfg(cfg)
    d = cfg["d"]
    x = start_point(d) if cfg["x"] is None else np.array(cfg["x"], dtype=float)
    if cfg["scale"]:
        x = x * cfg["scale"][0]
    r = 0.1 * max(np.abs(x).max(), 1e-300)
    lb = ub = None
    if cfg["box"]:
        lb, ub = (np.array(b, dtype=float) for b in cfg["box"])
    elif cfg["bounds"]:
        pat = cfg["bounds"]
        pairs = [bounds_for(p, xi, r) for p, xi in zip(pat, x)]
        lb = np.array([p[0] for p in pairs])
        ub = np.array([p[1] for p in pairs])
        side = pat[len(x):]  # optional suffix: pass only one of the two arrays
        if side == "<":
            ub = None
        elif side == ">":
            lb = None
    return x, lb, ub


def bad_solver(kind):
    """User supplied subproblem solvers that leave the unit region or fail."""
    def solver(model, x_candidate):
        n = len(x_candidate)
        if kind == "raise":
            raise RuntimeError("no solution")
        x = {"far": np.where(model.linear_terms > 0, -3.0, 3.0), "nan": np.full(n, np.nan),
             "corner": np.where(model.linear_terms > 0, -1.0, 1.0)}[kind]
        return {"x": x, "criterion": 0.0, "n_iterations": 1, "success": True}
    return solver


def run_opt(cfg, env_cls=Env, be_cls=BatchEvaluator, be_kwargs=None, call=None):
    cfg = full_cfg(cfg)
    x, lb, ub = problem(cfg)
    env = env_cls(cfg["functype"], cfg["base"], cfg["d"], cfg["policy"], cfg["dev"], cfg["mutate"], cfg["suffix"], cfg["acc"],
                  **({"scale": cfg["scale"]} if cfg["scale"] else {}))
    be = be_cls(env, **(be_kwargs or {}))
    opts = {"stopping_max_iterations": cfg["iters"], "batch_evaluator": be}
    opts.update(copy.deepcopy(cfg["opts"]))
    if "joblib" == opts.get("batch_evaluator"):
        be = None
    env.jitter = cfg["jitter"]
    if cfg["bad_solver"]:
        opts["cube_subsolver"] = opts["sphere_subsolver"] = bad_solver(cfg["bad_solver"])
    tap = None
    if cfg["tap"]:
        tap = Tap(env)
        noisy = opts.get("noisy", False)
        opts["acceptance_decider"] = tap.acceptance(
            opts.get("acceptance_decider") or ("noisy" if noisy else "classic"), opts.pop("acceptance_decider_options", None))
        bs = opts.get("batch_size") or opts.get("n_cores", 1)
        opts["sample_filter"] = tap.filter(
            opts.get("sample_filter") or ("drop_excess" if bs > 1 else "keep_all"), opts.pop("sample_filter_options", None))
        opts["sampler"] = tap.sampler(opts.get("sampler") or "optimal_hull", opts.pop("sampler_options", None))
    run = Run(cfg, env, be, tap)
    run.x0, run.lb, run.ub = x.copy(), lb, ub
    fun = call or need("tranquilo.tranquilo", "_tranquilo")
    try:
        run.res = fun(functype=cfg["functype"], criterion=env, x=x, lower_bounds=lb, upper_bounds=ub, **opts)
    except Exception as e:
        run.exc = e
        run.tb = " / ".join(t.strip() for t in traceback.format_exc().strip().splitlines()[-5:-1])[:500]
    run.opts = opts
    return run


def state_hashes(run):
    """Canonical hashes of the loop states of a run (what the future depends on)."""
    if run.res is None:
        return []
    tag = (run.cfg["functype"], run.cfg["d"], run.cfg["bounds"], run.cfg["base"], repr(sorted(run.cfg["opts"].items(), key=lambda t: t[0])))
    out = []
    for s in run.states:
        out.append(h64(tag, np.round(np.asarray(s.x, float), 9).tolist(), float(s.trustregion.radius), round(float(np.atleast_1d(s.fval)[0]), 9)
                       if np.isfinite(s.fval) else str(s.fval), int(s.index), [int(i) for i in np.atleast_1d(s.model_indices)]))
    return out


# ======================================================================================
# Exploration of answer sequences
# ======================================================================================


def deviation_sets(n_points, alphabet, k, first=1):
    """All ways to deviate at most k times at positions first..n_points-1."""
    for j in range(k + 1):
        for pos in itertools.combinations(range(first, n_points), j):
            for syms in itertools.product(alphabet, repeat=j):
                yield [list(t) for t in zip(pos, syms)]
