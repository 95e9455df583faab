"""Oracles: judge one recorded run against a property. Each returns a list of violations.

They use only what a user can observe: the criterion calls (owned by the environment), the
result of the optimizer, and the public getters of the history.
"""
import numpy as np

from mc.driver import aggregate, stored

TOL = 1e-9


def close(a, b, tol=1e-10):
    a, b = float(a), float(b)
    if a == b or (a != a and b != b):
        return True
    if not (np.isfinite(a) and np.isfinite(b)):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_x(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float))


def call_value(run, k):
    """Aggregated value the record must hold for the k-th call."""
    ans = run.env.calls[k][1]
    if ans is None:
        return np.inf
    return aggregate(run.cfg["functype"], stored(run.cfg["functype"], ans))


def no_exception(run):
    if run.exc is not None:
        return [f"optimizer raised {type(run.exc).__name__}: {str(run.exc)[:200]} | {run.tb}"]
    return []


# --------------------------------------------------------------------------------------
# P01
# --------------------------------------------------------------------------------------


def feasibility(run):
    out = []
    lb = np.full(len(run.x0), -np.inf) if run.lb is None else run.lb
    ub = np.full(len(run.x0), np.inf) if run.ub is None else run.ub

    def bad(x):
        x = np.asarray(x, float)
        return not ((x >= lb) & (x <= ub)).all()

    for k, (x, _, _) in enumerate(run.env.calls):
        if bad(x):
            out.append(f"evaluation {k} at {x.tolist()} outside of bounds {lb.tolist()} {ub.tolist()}")
            break
    if run.res is not None:
        if bad(run.res["solution_x"]):
            out.append(f"solution {np.asarray(run.res['solution_x']).tolist()} outside of bounds")
        for i, s in enumerate(run.states):
            if bad(s.x) or bad(s.candidate_x):
                out.append(f"state {i}: x or candidate outside of bounds")
                break
        if bad_rows(run.history.get_xs(), lb, ub):
            out.append("a stored parameter vector is outside of the bounds")
    return out


def bad_rows(xs, lb, ub):
    xs = np.atleast_2d(np.asarray(xs, float))
    return not ((xs >= lb) & (xs <= ub)).all()


# --------------------------------------------------------------------------------------
# P03: calls versus record
# --------------------------------------------------------------------------------------


def record(run):
    out = []
    if run.res is None:
        return out
    ft = run.cfg["functype"]
    h = run.history
    calls = run.env.calls
    if h.get_n_fun() != len(calls):
        out.append(f"history counts {h.get_n_fun()} evaluations, criterion was called {len(calls)} times")
        return out
    n_xs = h.get_n_xs()
    xs = np.atleast_2d(h.get_xs())
    fvecs = h.get_fvecs(np.arange(n_xs))
    fvals = h.get_fvals(np.arange(n_xs))
    want = {}
    ok_shape = next((np.shape(stored(ft, a)) for _, a, _ in calls if a is not None), ())
    for x, a, _ in calls:
        st = stored(ft, a)
        if st is None:
            st = np.full(ok_shape, np.inf)
        want.setdefault(x.tobytes(), []).append(np.atleast_1d(st).astype(float))
    got = {}
    for i in range(n_xs):
        key = np.ascontiguousarray(xs[i], dtype=float).tobytes()
        vecs = [np.atleast_1d(v) for v in np.asarray(fvecs[i], float)]
        got.setdefault(key, []).extend(vecs)
        vals = np.atleast_1d(np.asarray(fvals[i], float))
        if len(vals) != len(vecs):
            out.append(f"point {i} has {len(vecs)} vectors but {len(vals)} values")
            continue
        for v, f in zip(vecs, vals):
            if not close(aggregate(ft, v), f, 1e-12):
                out.append(f"value {f} of point {i} is not the aggregate of {v.tolist()}")
                break
    got = {k: v for k, v in got.items() if v}
    if set(got) != set(want):
        out.append("the evaluated points and the points with stored evaluations differ")
        return out
    for k in want:
        a = sorted(v.tobytes() for v in want[k])
        b = sorted(np.ascontiguousarray(v, float).tobytes() for v in got[k])
        if a != b:
            out.append(f"stored evaluations {[v.tolist() for v in got[k]][:4]} differ from the answers "
                       f"{[v.tolist() for v in want[k]][:4]} at x={np.frombuffer(k).tolist()}")
            break
    if not same_x(xs[0], run.x0):
        out.append("the first stored point is not the start point")
    return out


# --------------------------------------------------------------------------------------
# P02: acceptance
# --------------------------------------------------------------------------------------


def acceptance(run, min_improvement=0.0):
    """Noise-free runs with a tap."""
    out = []
    if run.res is None:
        return out
    S = run.states
    h = run.history
    ev = [e for e in run.tap.events if e["kind"] == "accept"]
    if len(ev) != len(S) - 1:
        return [f"{len(S) - 1} recorded iterations but {len(ev)} acceptance decisions"]
    s0 = S[0]
    if not same_x(s0.x, run.x0) or int(s0.index) != 0 or not close(s0.fval, call_value(run, 0)):
        out.append("initial state does not describe the start point")
    best = float(s0.fval)
    for i, e in enumerate(ev, 1):
        s, p = S[i], S[i - 1]
        tag = f"iteration {i}: "
        if int(s.index) < 0 or int(s.index) >= h.get_n_xs() or not same_x(h.get_xs(int(s.index)), s.x):
            out.append(tag + "index does not belong to the accepted point")
        else:
            rec = np.asarray(h.get_fvals(int(s.index)), float)
            if not close(np.mean(rec), s.fval, 1e-12):
                out.append(tag + f"accepted value {s.fval} differs from the recorded value {np.mean(rec)}")
        acc_calls = range(e["n_fun_before"], e["n_fun_after"])
        sol = e["sol"]
        cand = [k for k in acc_calls if same_x(run.env.calls[k][0], sol.x)]
        if not cand:
            out.append(tag + "the candidate was not evaluated")
            continue
        vals = {k: call_value(run, k) for k in acc_calls}
        vc = vals[cand[0]]
        cur = float(p.fval)
        # the best point of the batch replaces the candidate if it is strictly better
        kbest, vbest = cand[0], vc
        for k in acc_calls:
            if vals[k] < vbest:
                kbest, vbest = k, vals[k]
        xbest = run.env.calls[kbest][0]
        improve = cur - vbest
        expect = bool(np.isfinite(vbest) and improve >= min_improvement)
        near = np.isfinite(vbest) and abs(improve - min_improvement) <= 1e-12 * max(1.0, abs(cur)) and improve != min_improvement
        if bool(s.accepted) != expect and not near:
            out.append(tag + f"accepted={s.accepted} although the value changed from {cur} to {vbest} (minimum improvement {min_improvement})")
            continue
        if s.accepted:
            if not same_x(s.x, xbest) or not close(s.fval, vbest, 1e-12):
                ties = [k for k in acc_calls if vals[k] == vbest and same_x(run.env.calls[k][0], s.x)]
                if not ties or not close(s.fval, vbest, 1e-12):
                    out.append(tag + f"accepted x={np.asarray(s.x).tolist()} f={s.fval}, best evaluated x={xbest.tolist()} f={vbest}")
        else:
            if not same_x(s.x, p.x) or not close(s.fval, cur, 0) or int(s.index) != int(p.index):
                out.append(tag + "state changed although the candidate was rejected")
        if min_improvement >= 0 and float(s.fval) > best + 1e-12 * max(1.0, abs(best)):
            out.append(tag + f"accepted value increased from {best} to {s.fval}")
        best = min(best, float(s.fval))
        if np.isfinite(vbest):
            if not (same_x(s.candidate_x, xbest) or any(vals[k] == vbest and same_x(run.env.calls[k][0], s.candidate_x) for k in acc_calls)):
                out.append(tag + "recorded candidate is not the evaluated candidate")
            if not same_x(h.get_xs(int(s.candidate_index)), s.candidate_x):
                out.append(tag + "candidate index does not belong to the candidate")
            exp = float(sol.expected_improvement)
            act = cur - vc
            want = (np.inf if act > 0 else -np.inf) if exp == 0 else act / exp
            if not close(s.rho, want, 1e-8):
                out.append(tag + f"rho is {s.rho}, actual over expected improvement is {want}")
        else:
            if not (s.rho == -np.inf):
                out.append(tag + f"rho is {s.rho} for a failed candidate")
        step = float(np.linalg.norm(np.asarray(s.x) - np.asarray(p.x)))
        if not close(s.step_length, step, 1e-9):
            out.append(tag + f"step length {s.step_length}, distance of accepted points {step}")
        if not close(s.relative_step_length, step / float(s.trustregion.radius), 1e-9):
            out.append(tag + f"relative step length {s.relative_step_length}, should be {step / float(s.trustregion.radius)}")
        if out:
            break
    last = S[-1]
    if not same_x(run.res["solution_x"], last.x) or not close(run.res["solution_criterion"], last.fval, 0):
        out.append("the solution is not the last accepted point")
    if min_improvement >= 0 and float(run.res["solution_criterion"]) > float(s0.fval):
        out.append("the solution is worse than the start")
    return out


# --------------------------------------------------------------------------------------
# P07: trust region
# --------------------------------------------------------------------------------------

RADIUS_DEFAULTS = {
    "min_radius": 1e-6, "max_radius": 1e6, "rho_decrease": 0.1, "rho_increase": 0.1,
    "shrinking_factor": 0.5, "expansion_factor": 2.0, "large_step": 0.5, "max_radius_to_step_ratio": np.inf,
}


def radius_rule(radius, rho, step, o, increased):
    if rho >= o["rho_increase"] and step / radius >= o["large_step"]:
        new = radius * o["expansion_factor"]
    elif rho >= o["rho_decrease"] or increased:
        new = radius
    else:
        new = radius * o["shrinking_factor"]
    upper = o["max_radius"]
    if np.isfinite(o["max_radius_to_step_ratio"]):
        upper = min(upper, step * o["max_radius_to_step_ratio"])
    return max(min(new, upper), o["min_radius"])


def in_region(x, region, lb, ub, tol=1e-9):
    """Whether x lies in the sphere or in the clipped cube with the volume of the sphere."""
    x = np.asarray(x, float)
    c = np.asarray(region.center, float)
    r = float(region.radius)
    if region.shape == "sphere":
        return np.linalg.norm(x - c) <= r * (1 + tol) + tol * 1e-3 * max(1.0, np.abs(c).max())
    d = len(c)
    from math import gamma, pi

    half = 0.5 * (pi ** (d / 2) * r ** d / gamma(d / 2 + 1)) ** (1 / d)
    slack = tol * half + 1e-12 * max(1.0, np.abs(c).max())
    return bool((np.abs(x - c) <= half + slack).all())


def trust_region(run, line_search=False):
    out = []
    if run.res is None:
        return out
    S = run.states
    h = run.history
    o = dict(RADIUS_DEFAULTS)
    o.update(run.cfg["opts"].get("radius_options") or {})
    r0 = o.get("initial_radius")
    if r0 is None:
        m = np.abs(run.x0).max()
        r0 = 0.1 * m if m > 0 else None
    if r0 is not None and not close(S[0].trustregion.radius, r0, 1e-12):
        out.append(f"initial radius {S[0].trustregion.radius} instead of {r0}")
    if not float(S[0].trustregion.radius) > 0:
        out.append("initial radius is not positive")
    lb = np.full(len(run.x0), -np.inf) if run.lb is None else run.lb
    ub = np.full(len(run.x0), np.inf) if run.ub is None else run.ub
    for i in range(1, len(S)):
        s, p = S[i], S[i - 1]
        tag = f"iteration {i}: "
        tr = s.trustregion
        if not same_x(tr.center, p.x):
            out.append(tag + "the region is not centered at the accepted point")
        if i >= 2:
            inc = False
            n_new, n_old = s.n_evals_per_point, p.n_evals_per_point
            if n_new is not None and n_old is not None:
                inc = n_new > n_old
            step = float(np.linalg.norm(np.asarray(p.x) - np.asarray(S[i - 2].x)))
            r = float(p.trustregion.radius)
            want = radius_rule(r, float(p.rho), step, o, inc)
            if not close(float(tr.radius), want, 1e-9):
                alts = [radius_rule(r, float(p.rho) * f, step * g, o, inc) for f in (1 - 1e-9, 1 + 1e-9) for g in (1 - 1e-9, 1 + 1e-9)]
                if not any(abs(float(tr.radius) - a) <= 1e-9 * a for a in alts):
                    out.append(tag + f"radius {tr.radius} instead of {want} (before {r}, rho {p.rho}, step {step}, n_evals increased {inc})")
            if not (o["min_radius"] * (1 - 1e-12) <= tr.radius):
                out.append(tag + f"radius {tr.radius} below the minimum")
            if o["max_radius"] >= o["min_radius"] and tr.radius > o["max_radius"] * (1 + 1e-12):
                out.append(tag + f"radius {tr.radius} above the maximum")
        for j in np.atleast_1d(s.new_indices).astype(int):
            if not in_region(h.get_xs(int(j)), tr, lb, ub):
                out.append(tag + f"new model point {np.asarray(h.get_xs(int(j))).tolist()} outside of the region {np.asarray(tr.center).tolist()} {tr.radius}")
                break
        if out:
            break
    if run.tap is not None:
        for e in run.tap.events:
            if e["kind"] == "accept" and not in_region(e["sol"].x, e["state"].trustregion, lb, ub):
                out.append(f"candidate {np.asarray(e['sol'].x).tolist()} outside of its region "
                           f"{np.asarray(e['state'].trustregion.center).tolist()} {e['state'].trustregion.radius} {e['state'].trustregion.shape}")
                break
    return out


# --------------------------------------------------------------------------------------
# P06: stopping
# --------------------------------------------------------------------------------------

CONV_DEFAULTS = {
    "convergence_absolute_criterion_tolerance": 0.0,
    "convergence_absolute_gradient_tolerance": 0.0,
    "convergence_absolute_params_tolerance": 0.0,
    "convergence_relative_criterion_tolerance": 2e-9,
    "convergence_relative_gradient_tolerance": 1e-8,
    "convergence_relative_params_tolerance": 1e-8,
    "convergence_min_trust_region_radius": 0.0,
}


def _measures(old, new):
    with np.errstate(all="ignore"):
        f_abs = abs(float(old.fval) - float(new.fval))
        dx = np.asarray(old.x, float) - np.asarray(new.x, float)
        g_abs = float(np.linalg.norm(np.asarray(new.model.linear_terms, float)))
        return {
            "relative_criterion": f_abs / max(abs(float(old.fval)), 1.0),
            "absolute_criterion": f_abs,
            "relative_params": float(np.linalg.norm(dx / np.maximum(np.abs(np.asarray(old.x, float)), 1.0))),
            "absolute_params": float(np.linalg.norm(dx)),
            "relative_gradient": g_abs / max(g_abs, 1.0),
            "absolute_gradient": g_abs,
        }


def _le(a, tol):
    """True / False / None (too close to call)."""
    if abs(a - tol) <= 1e-9 * abs(tol) and a != tol:
        return None
    return a <= tol


def _met(old, new, opts):
    c = dict(CONV_DEFAULTS)
    c.update({k: v for k, v in opts.items() if k in c})
    out = {}
    for k, v in _measures(old, new).items():
        rel, what = k.split("_")
        out[k] = _le(v, float(c[f"convergence_{rel}_{what}_tolerance"]))
    return out


def next_radius(run, i):
    """Radius the rule gives after iteration i (i >= 1)."""
    S = run.states
    o = dict(RADIUS_DEFAULTS)
    o.update(run.cfg["opts"].get("radius_options") or {})
    step = float(np.linalg.norm(np.asarray(S[i].x) - np.asarray(S[i - 1].x)))
    return radius_rule(float(S[i].trustregion.radius), float(S[i].rho), step, o, False)


def stopping(run, times=None):
    out = []
    if run.res is None:
        return out
    S = run.states
    o = run.opts
    n = len(S) - 1
    max_iter = int(o.get("stopping_max_iterations", 200))
    max_eval = int(o.get("stopping_max_criterion_evaluations", 2000))
    disabled = bool(o.get("disable_convergence", False))
    min_r = float(o.get("convergence_min_trust_region_radius", 0.0))
    msg = run.res["message"]
    low = "" if msg is None else str(msg).lower()
    noisy = bool(o.get("noisy", False))
    ev = [e for e in run.tap.events if e["kind"] == "accept"]
    if n > max_iter:
        out.append(f"{n} iterations although at most {max_iter} are allowed")
    if len(ev) != n:
        return out + [f"{n} recorded iterations but {len(ev)} acceptance decisions"]
    reasons_last = set()
    for i in range(1, n + 1):
        maybe = False
        reasons = set()
        if S[i].accepted and not disabled:
            for k, v in _met(S[i - 1], S[i], o).items():
                if v:
                    reasons.add(k)
                elif v is None:
                    maybe = True
                    if i == n:
                        reasons_last.add(k)
        if not disabled and not noisy:
            r = next_radius(run, i)
            v = _le(r, min_r)
            if v:
                reasons.add("radius")
            elif v is None:
                maybe = True
        elif not disabled and min_r > 0:
            maybe = True
        if ev[i - 1]["n_fun_after"] >= max_eval:
            reasons.add("evaluations")
        if times is not None and times(run, i):
            reasons.add("time")
        if i < n and reasons:
            out.append(f"continued after iteration {i} although {sorted(reasons)} held")
            return out
        if i == n:
            reasons_last |= reasons
            if n < max_iter and not reasons and not maybe:
                out.append(f"stopped after iteration {n} of {max_iter} without a reason (message {msg!r})")
                return out
    # message
    if n == 0:
        kinds = set()
    kind = None
    if msg is not None:
        for r in ("relative", "absolute"):
            for w, name in (("gradient", "gradient"), ("criterion change", "criterion"), ("params", "params")):
                if r in low and w in low:
                    kind = f"{r}_{name}"
        if kind is None and ("region" in low or "radius" in low):
            kind = "radius"
        if kind is None and "evaluation" in low:
            kind = "evaluations"
        if kind is None and "time" in low:
            kind = "time"
        if kind is None and "iteration" in low:
            kind = "iterations"
        if kind is None:
            out.append(f"unknown message {msg!r}")
        elif kind == "iterations":
            if n != max_iter:
                out.append(f"message {msg!r} after {n} of {max_iter} iterations")
        elif n == 0 or kind not in reasons_last:
            if not (noisy and kind == "radius"):
                out.append(f"message {msg!r} although only {sorted(reasons_last)} held at the end")
    elif reasons_last - {"time"} and not maybe:
        out.append(f"no message although {sorted(reasons_last)} held at the end")
    # budget
    if n >= 1:
        before = ev[n - 2]["n_fun_after"] if n >= 2 else 1
        if n >= 2 and before >= max_eval:
            out.append("an iteration was started after the evaluation budget was used up")
    if len(run.env.calls) != run.history.get_n_fun():
        out.append("number of criterion calls and counted evaluations differ")
    return out


# --------------------------------------------------------------------------------------
# P15: bookkeeping of model samples
# --------------------------------------------------------------------------------------


def samples(run):
    out = []
    if run.res is None:
        return out
    S = run.states
    h = run.history
    o = run.cfg["opts"]
    factor = o.get("search_radius_factor") or (4.25 if run.cfg["functype"] == "scalar" else 5.0)
    filt = [e for e in run.tap.events if e["kind"] == "filter"]
    if len(filt) != len(S) - 1:
        return [f"{len(S) - 1} iterations but {len(filt)} calls of the sample filter"]
    xs = np.atleast_2d(h.get_xs())
    for i in range(1, len(S)):
        s, p, e = S[i], S[i - 1], filt[i - 1]
        tag = f"iteration {i}: "
        n0 = e["n_xs"]
        mi = np.atleast_1d(s.model_indices).astype(int)
        if len(set(mi.tolist())) != len(mi):
            out.append(tag + f"duplicate model points {mi.tolist()}")
        if (mi < 0).any() or (mi >= len(xs)).any():
            out.append(tag + "model point that is not in the history")
            break
        R = factor * float(s.trustregion.radius)
        dist = np.linalg.norm(xs[:n0] - np.asarray(p.x, float), axis=1)
        sure = set(np.flatnonzero(dist <= R * (1 - 1e-12)).tolist())
        maybe = set(np.flatnonzero(dist <= R * (1 + 1e-12)).tolist())
        used = set(np.atleast_1d(s.old_indices_used).astype(int).tolist())
        disc = set(np.atleast_1d(s.old_indices_discarded).astype(int).tolist())
        new = set(np.atleast_1d(s.new_indices).astype(int).tolist())
        if not (sure <= used | disc <= maybe):
            out.append(tag + f"old points {sorted(used | disc)} are not the points in the search region {sorted(sure)}")
        given = set(np.atleast_1d(e["indices"]).astype(int).tolist())
        if not (sure <= given <= maybe):
            out.append(tag + f"filter got {sorted(given)} instead of the points in the search region {sorted(sure)}")
        if not np.array_equal(e["xs"], xs[np.atleast_1d(e["indices"]).astype(int)]):
            out.append(tag + "filter got points that do not belong to their indices")
        if used & disc:
            out.append(tag + "points are recorded as used and discarded")
        if used | new != set(mi.tolist()) or used & new:
            out.append(tag + f"used {sorted(used)} and new {sorted(new)} points are not a partition of the model points {sorted(mi.tolist())}")
        if any(j < n0 for j in new):
            out.append(tag + f"new points {sorted(new)} contain old ones (first new index {n0})")
        if any(j >= n0 for j in used | disc):
            out.append(tag + "old points contain new ones")
        acc = [a for a in run.tap.events if a["kind"] == "accept"][i - 1]
        if any(j >= acc["n_xs_before"] for j in new):
            out.append(tag + "points of the acceptance step are recorded as model points")
        if out:
            break
        for j in mi:
            if len(h.get_fvals(int(j))) == 0:
                out.append(tag + f"model point {j} was never evaluated")
                break
    return out
