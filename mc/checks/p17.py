"""P17: options and components."""
import collections
import functools
import itertools
import warnings

import numpy as np

from mc import driver
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of option bundles, declared argument sets, call styles, component names and argument combinations on the real processing code, against an independent reference; component substitution replays on complete optimizations"
RULE = "bundles x fields x values; argument subsets x orders x call styles; names and near misses; argument lattice of process_arguments; non-trivial: at least one user setting"
ASSUMPTIONS = ["options are converted to the type of their default where the documentation says so"]
NAN = float("nan")


def raises(f, *types):
    """None if f raises one of the types, else a description of what happened."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = f()
    except types:
        return None
    except Exception as e:
        return f"{type(e).__name__}({e}) instead of {types[0].__name__}"
    return f"accepted ({str(out)[:60]})"


# ------------------------------------------------------------------------------ bundles


BUNDLES = ["RadiusOptions", "AcceptanceOptions", "StagnationOptions", "SubsolverOptions", "FitterOptions", "VarianceEstimatorOptions", "FilterOptions", "SamplerOptions", "NoiseAdaptationOptions"]


def default_bundle(name):
    cls = need("tranquilo.options", name)
    if name == "RadiusOptions":
        return cls(initial_radius=0.3)
    if name == "StagnationOptions":
        return cls(min_relative_step_keep=0.125, drop=True)
    return cls()


def values_for(default):
    if isinstance(default, bool):
        return [(True, True), (False, False), (1, True), (0, False), (np.bool_(True), True)]
    if isinstance(default, int):
        return [(7, 7), (7.0, 7), (np.int64(9), 9), ("11", 11), (0, 0), (-3, -3)]
    if isinstance(default, float):
        return [(0.37, 0.37), (2, 2.0), (np.float64(1e-3), 1e-3), (np.float32(0.5), 0.5), ("0.25", 0.25), (0, 0.0), (np.inf, np.inf), (-1.5, -1.5), (np.int64(3), 3.0), (12.75, 12.75)]
    if isinstance(default, str):
        return [("cube", "cube"), ("some_name", "some_name"), ("", "")]
    return [("x", "x"), (3, 3), ({"a": 1}, {"a": 1}), (None, None), (0.5, 0.5)]


def same(a, b):
    return type(a) is type(b) and a == b or (a is None and b is None)


def c_bundles(tier):
    for name in BUNDLES:
        for style in ("dict", "namedtuple", "full"):
            yield {"name": name, "style": style, "pairs": tier != "quick"}


def as_style(style, default, upd):
    if style == "dict":
        return dict(upd)
    if style == "namedtuple":
        return collections.namedtuple("UserOptions", list(upd))(**upd)
    return default._replace(**upd)


def r_bundles(case):
    update = need("tranquilo.options", "update_option_bundle")
    name, style = case["name"], case["style"]
    default = default_bundle(name)
    ref = default._asdict()
    viol, k, states = [], 0, []
    if update(default, None) != default or update(default_options=default) != default:
        viol.append(f"{name}: nothing set, but not the defaults")
    if style == "dict" and update(default, {}) != default:
        viol.append(f"{name}: empty options, but not the defaults")
    fields = list(ref)

    def one(upd):
        user = as_style(style, default, {f: v for f, (v, _) in upd.items()})
        before = dict(user) if isinstance(user, dict) else user._asdict()
        got = update(default, user_options=user)
        if type(got) is not type(default):
            viol.append(f"{name} {upd}: result is a {type(got).__name__}")
            return
        for f in fields:
            want = upd[f][1] if f in upd else ref[f]
            have = getattr(got, f)
            tol = f in upd and isinstance(want, (int, float)) and not isinstance(want, bool)
            ok = (have == want and isinstance(have, type(ref[f]) if ref[f] is not None else object)) if tol else (have == want)
            if not ok:
                viol.append(f"{name}.{f}: {have!r} instead of {want!r} after setting {({q: v for q, (v, _) in upd.items()})} ({style})")
        if (dict(user) if isinstance(user, dict) else user._asdict()) != before or default._asdict() != ref:
            viol.append(f"{name}: the user's options or the defaults are modified")

    for f in fields:
        for v in values_for(ref[f]):
            one({f: v})
            k += 1
            states.append(h64(name, style, f, repr(v[0])))
    for a, b in itertools.combinations(fields, 2):
        for va in values_for(ref[a])[:2 if not case["pairs"] else None]:
            for vb in values_for(ref[b])[-2 if not case["pairs"] else None:]:
                one({a: va, b: vb})
                k += 1
    one({f: values_for(ref[f])[0] for f in fields})
    # unknown fields, also next to valid ones
    if style != "full":
        for bad in [fields[0] + "_", fields[-1].upper(), "", "x", fields[0][:-1]]:
            if bad in fields or (style == "namedtuple" and not bad.isidentifier()):
                continue
            for extra in ({}, {fields[0]: values_for(ref[fields[0]])[0][0]}):
                if style == "namedtuple" and bad.startswith("_"):
                    continue
                msg = raises(lambda: update(default, as_style(style, default, {**extra, bad: 1})), ValueError)
                k += 1
                if msg:
                    viol.append(f"{name}: unknown option {bad!r} is {msg}")
    # values that cannot be converted
    for f in fields:
        if isinstance(ref[f], (int, float)) and not isinstance(ref[f], bool):
            for v in ("abc", [1], {"a": 1}, None):
                msg = raises(lambda: update(default, as_style(style, default, {f: v})), ValueError, TypeError)
                k += 1
                if msg:
                    viol.append(f"{name}.{f}={v!r} is {msg}")
    return Res(viol[:4], outcome=name, states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ argument handling


ARGS = ["a", "b", "c"]
OPTS = ["p", "q"]
Defaults = collections.namedtuple("Defaults", ["p", "q"])


def build(order, kind, log):
    """A component that declares exactly `order` and logs what it receives."""
    ns = {"log": log}
    body = "{" + ", ".join(f"'{a}': {a}" for a in order) + "}"
    if kind == "kwonly":
        sig = "*, " + ", ".join(order)
    elif kind == "defaults":
        sig = ", ".join(f"{a}='d{a}'" for a in order)
    else:
        sig = ", ".join(order)
    if kind in ("method", "instance"):
        meth = "__call__" if kind == "instance" else "run"
        src = f"class C:\n  def {meth}(self, {sig}):\n    log.append({body})\n    return 'out'\n"
        exec(src, ns)
        return ns["C"]() if kind == "instance" else ns["C"]().run
    src = f"def fun({sig}):\n    log.append({body})\n    return 'out'\n"
    exec(src, ns)
    f = ns["fun"]
    if kind == "partial":
        return functools.partial(f)
    if kind == "wrapped":
        @functools.wraps(f)
        def g(*args, **kwargs):
            return f(*args, **kwargs)
        return g
    return f


KINDS = ["function", "kwonly", "defaults", "method", "instance", "partial", "wrapped"]


def c_args(tier):
    for n in range(1, 6):
        for sub in itertools.combinations(ARGS + OPTS, n):
            orders = list(itertools.permutations(sub))
            if tier == "quick" and len(orders) > 6:
                orders = orders[::5]
            for o in orders:
                yield {"order": list(o)}


def r_args(case):
    get = need("tranquilo.get_component", "get_component")
    order = case["order"]
    viol, k, states = [], 0, []
    declared = set(order)
    runtime = [a for a in order if a in ARGS]
    for kind in KINDS:
        for user in (None, {}, {"p": 5}, {"q": 7, "p": 6}, collections.namedtuple("U", "q")(q=8)):
            opts = {"p": 1, "q": 2}
            opts.update({} if user is None else user if isinstance(user, dict) else user._asdict())
            for handling in ("ignore", "raise", "warn"):
                log = []
                f = build(order, kind, log)
                comp = get(f, "thing", func_dict={"x": f}, default_options=Defaults(1, 2), user_options=user, redundant_argument_handling=handling)
                vals = {a: f"v{a}" for a in ARGS}
                calls = []
                # all numbers of positional arguments (only leading arguments that are no options)
                lead = 0
                while lead < len(order) and order[lead] in ARGS:
                    lead += 1
                if kind == "kwonly":
                    lead = 0
                for n_pos in range(lead + 1):
                    for extra in ({}, {"zz": 0, "state": 1}):
                        if extra and handling == "raise":
                            continue
                        kw = {a: vals[a] for a in ARGS if a not in order[:n_pos]} if handling != "raise" else {a: vals[a] for a in runtime if a not in order[:n_pos]}
                        calls.append(([vals[a] for a in order[:n_pos]], {**kw, **extra}, bool(extra) or any(a not in declared for a in kw)))
                for pos, kw, redundant in calls:
                    log.clear()
                    ctx = f"component({', '.join(order)}) as {kind}, options {user}, called with {pos}, {kw}, handling={handling}"
                    with warnings.catch_warnings(record=True) as rec:
                        warnings.simplefilter("always")
                        out = comp(*pos, **kw)
                    k += 1
                    want = {a: vals[a] if a in ARGS else opts[a] for a in order}
                    if out != "out" or log != [want]:
                        viol.append(f"{ctx}: received {log} instead of {want}")
                    if handling == "warn" and redundant != bool(rec):
                        viol.append(f"{ctx}: {len(rec)} warnings")
                    if handling == "ignore" and rec:
                        viol.append(f"{ctx}: a warning")
                # a runtime value wins over the option
                if "p" in declared and handling == "ignore":
                    log.clear()
                    comp(**{a: vals[a] for a in runtime}, p="runtime")
                    if log[0]["p"] != "runtime":
                        viol.append(f"component({', '.join(order)}): runtime value of p is replaced by {log[0]['p']}")
                # missing arguments are errors of the component, not silently filled
                if runtime and kind != "defaults":
                    msg = raises(lambda: comp(**{a: vals[a] for a in runtime[1:]}), TypeError)
                    k += 1
                    if msg:
                        viol.append(f"component({', '.join(order)}) without {runtime[0]}: {msg}")
                if handling == "raise":
                    msg = raises(lambda: comp(**{a: vals[a] for a in runtime}, zz=1), TypeError)
                    if msg:
                        viol.append(f"component({', '.join(order)}): redundant argument with handling=raise {msg}")
                states.append(h64(order, kind, str(user), handling))
        # mandatory arguments
        for m in range(0, 3):
            for mand in itertools.combinations(ARGS + ["p"], m):
                f = build(order, kind, [])
                call = functools.partial(get, f, "thing", default_options=Defaults(1, 2), mandatory_signature=list(mand))
                k += 1
                if set(mand) <= declared:
                    try:
                        call()
                    except Exception as e:
                        viol.append(f"component({', '.join(order)}) with mandatory {mand}: {e}")
                else:
                    msg = raises(call, ValueError)
                    if msg:
                        viol.append(f"component({', '.join(order)}) without mandatory {mand}: {msg}")
        # redundant options
        redundant = [o for o in OPTS if o not in declared]
        f = build(order, kind, [])
        msg = raises(lambda: get(f, "thing", default_options=Defaults(1, 2), redundant_option_handling="raise"), ValueError)
        if bool(redundant) != (msg is None):
            viol.append(f"component({', '.join(order)}): redundant options {redundant} with handling=raise: {msg}")
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            get(f, "thing", default_options=Defaults(1, 2), redundant_option_handling="warn")
        if bool(rec) != bool(redundant):
            viol.append(f"component({', '.join(order)}): redundant options {redundant}, {len(rec)} warnings")
        if len(viol) > 4:
            break
    return Res(viol[:3], outcome=h64(len(order), len(runtime)), states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ the getters of the optimizer


GETTERS = {
    "sampler": ("tranquilo.sample_points", "get_sampler", "SamplerOptions", ["random_interior", "random_hull", "optimal_hull"], ["trustregion", "n_points", "existing_xs", "rng"], True),
    "sample_filter": ("tranquilo.filter_points", "get_sample_filter", "FilterOptions", ["discard_all", "keep_all", "clustering", "drop_excess"], ["xs", "indices", "state", "target_size", "history", "n_evals_per_point"], False),
    "fitter": ("tranquilo.fit_models", "get_fitter", "FitterOptions", ["ols", "ridge", "powell", "tranquilo"], ["x", "y", "weights", "model_type"], ["x", "y", "model_type"]),
    "variance_estimator": ("tranquilo.estimate_variance", "get_variance_estimator", "VarianceEstimatorOptions", ["classic"], ["trustregion", "history", "model_type"], False),
    "acceptance_decider": ("tranquilo.acceptance_decision", "get_acceptance_decider", "AcceptanceOptions", ["classic", "naive_noisy", "noisy", "classic_line_search"],
                           ["subproblem_solution", "state", "wrapped_criterion", "noise_variance", "history", "search_radius_factor", "batch_size", "sample_points", "rng"], False),
    "sphere_solver": ("tranquilo.solve_subproblem", "get_subsolver", "SubsolverOptions", ["gqtpar", "gqtpar_fast", "fallback_reparametrized", "fallback_inscribed_cube", "fallback_norm_constraint"], ["model", "x_candidate", "lower_bounds", "upper_bounds"], ["model", "x_candidate"]),
    "cube_solver": ("tranquilo.solve_subproblem", "get_subsolver", "SubsolverOptions", ["bntr", "bntr_fast", "fallback_cube", "fallback_multistart"], ["model", "x_candidate", "lower_bounds", "upper_bounds"], ["model", "x_candidate"]),
}


def make(slot, comp, options):
    mod, name, *_ = GETTERS[slot]
    get = need(mod, name)
    if slot == "fitter":
        return get(comp, options, model_type="linear", residualize=False, infinity_handling="relative")
    if slot == "sphere_solver":
        return get(comp, "fallback_cube", False, options)
    if slot == "cube_solver":
        return get("fallback_inscribed_cube", comp, False, options)
    return get(comp, options)


def c_getters(tier):
    for slot in GETTERS:
        yield {"slot": slot}


def invoke(slot, comp, args):
    """Call the processed component the way the optimizer does; returns expected runtime arguments."""
    if slot == "fitter":
        Region = need("tranquilo.region", "Region")
        x = np.array([[0.0, 0.0], [0.5, 0.0], [0.0, 0.25]])
        y = np.array([[1.0], [2.0], [0.5]])
        comp(x, y, region=Region(center=np.zeros(2), radius=1.0), old_model=None, weights=None)
        return {"x": x, "y": y, "weights": None, "model_type": "linear"}
    if slot in ("sphere_solver", "cube_solver"):
        Region, Bounds = need("tranquilo.region", "Region"), need("tranquilo.bounds", "Bounds")
        SM = need("tranquilo.models", "ScalarModel")
        b = None if slot == "sphere_solver" else Bounds(-0.5 * np.ones(2), 0.5 * np.ones(2))
        m = SM(1.0, np.ones(2), np.eye(2), shift=np.zeros(2), scale=1.0)
        comp(model=m, trustregion=Region(center=np.zeros(2), radius=1.0, bounds=b))
        return {"model": m, "x_candidate": np.zeros(2), "lower_bounds": -np.ones(2), "upper_bounds": np.ones(2)}
    vals = {a: object() for a in args}
    comp(**vals)
    return vals


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, tuple) and hasattr(a, "_fields"):
        return type(a) is type(b) and all(eq(u, v) for u, v in zip(a, b))
    return a is b or a == b


def r_getters(case):
    slot = case["slot"]
    mod, gname, bundle, names, args, mandatory = GETTERS[slot]
    default = default_bundle(bundle)._asdict()
    viol, k, states = [], 0, []
    for n in names:
        try:
            make(slot, n, None)
        except Exception as e:
            viol.append(f"{slot}: built-in {n} is rejected: {e}")
        for bad in (n + "_", n.upper(), n[:-1], " " + n, n[::-1]):
            if bad in names:
                continue
            msg = raises(lambda: make(slot, bad, None), ValueError)
            k += 1
            if msg:
                viol.append(f"{slot}: unknown name {bad!r} is {msg}")
        for f in ("no_such_option", list(default)[0] + "x", list(default)[0].upper()):
            msg = raises(lambda: make(slot, n, {f: 1}), ValueError)
            k += 1
            if msg:
                viol.append(f"{slot} {n}: unknown option {f!r} is {msg}")
    for bad in (3, 1.5, ["ols"], {"a": 1}):
        msg = raises(lambda: make(slot, bad, None), TypeError, ValueError)
        k += 1
        if msg:
            viol.append(f"{slot}: {bad!r} is {msg}")
    mand = args if mandatory is True else mandatory or []
    # every subset of arguments plus every option
    for n in range(len(args) + 1):
        for sub in itertools.combinations(args, n):
            if not sub and not mand:
                continue
            log = []
            ns = {"log": log, "np": np}
            optnames = list(default)
            sig = ", ".join([*sub, *optnames])
            ret = {"fitter": "np.zeros((1, 3))", "sphere_solver": "{'x': np.zeros(2), 'criterion': 0.0, 'n_iterations': 1, 'success': True}",
                   "cube_solver": "{'x': np.zeros(2), 'criterion': 0.0, 'n_iterations': 1, 'success': True}"}.get(slot, "None")
            exec(f"def user({sig}):\n    log.append(dict({', '.join(f'{a}={a}' for a in [*sub, *optnames])}))\n    return {ret}\n", ns)
            if not set(mand) <= set(sub):
                msg = raises(lambda: make(slot, ns["user"], None), ValueError)
                k += 1
                if msg:
                    viol.append(f"{slot}: user function without {set(mand) - set(sub)} is {msg}")
                continue
            fields = list(default)
            settings = [{}] + [{f: v[0]} for f in fields for v in values_for(default[f])[:1]]
            if n not in (len(args), len(mand) or 1):
                settings = settings[:2]
            for upd in settings:
                log.clear()
                before = dict(upd)
                comp = make(slot, ns["user"], upd or None)
                want = invoke(slot, comp, args)
                k += 1
                states.append(h64(slot, sub, repr(upd)))
                if upd != before:
                    viol.append(f"{slot}: the user's options are modified")
                exp = {**{a: want[a] for a in sub}, **default, **upd}
                if len(log) != 1:
                    viol.append(f"{slot}: user function is called {len(log)} times")
                    continue
                for a, v in exp.items():
                    if a in upd:
                        ok = log[0][a] == v
                    else:
                        ok = eq(log[0][a], v)
                    if not ok:
                        viol.append(f"{slot}: argument {a} of the user function is {log[0][a]!r} instead of {v!r} (options {upd})")
    return Res(viol[:4], outcome=slot, states=states, transitions=k, sample=case)


# ------------------------------------------------------------------------------ process_arguments


def be(func, arguments, n_cores=1, error_handling="continue", **kw):
    return [func(a) for a in arguments]


def process(**kw):
    f = need("tranquilo.process_arguments", "process_arguments")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(criterion=lambda x: 0.0, batch_evaluator=be, **kw)


X = {"a": [1.0, -3.0], "z": [0.0, 0.0, 0.0], "i": [2], "b": [0.5, 0.1, -0.2, 0.0]}


def c_process(tier):
    for ft in ("scalar", "least_squares", "likelihood"):
        for noisy in (False, True):
            for cores, bs in ((1, None), (1, 1), (1, 4), (2, None), (2, 3), (3, 3)):
                for x in X:
                    yield {"ft": ft, "noisy": noisy, "cores": cores, "bs": bs, "x": x}


def r_process(case):
    ft, noisy, cores, bs = case["ft"], case["noisy"], case["cores"], case["bs"]
    x = np.array(X[case["x"]])
    d = len(x)
    viol, k = [], 0
    batch = cores if bs is None else bs
    mt = "quadratic" if ft == "scalar" else "linear"
    size = 2 * d + 1 if mt == "quadratic" else d + 1 if noisy or batch > 1 else d + 2
    base = {"functype": ft, "x": x, "noisy": noisy, "n_cores": cores, **({} if bs is None else {"batch_size": bs})}
    want = {
        "batch_size": batch, "target_sample_size": size, "noisy": noisy, "search_radius_factor": 4.25 if ft == "scalar" else 5.0,
        "n_evals_at_start": 5 if noisy else 1, "n_evals_per_point": 1,
        "radius_options.initial_radius": 0.1 * max(abs(x)) if max(abs(x)) > 0 else 0.1, "radius_options.min_radius": 1e-6, "radius_options.max_radius": 1e6,
        "stagnation_options.min_relative_step_keep": 0.125 if batch == 1 and not noisy else 0.0, "stagnation_options.drop": not noisy,
        "stagnation_options.min_relative_step": 0.05, "stagnation_options.max_trials": 1, "stagnation_options.sample_increment": 1,
        "conv_options.disable": False, "conv_options.ftol_rel": 2e-9, "conv_options.gtol_rel": 1e-8, "conv_options.xtol_rel": 1e-8, "conv_options.ftol_abs": 0.0,
        "conv_options.gtol_abs": 0.0, "conv_options.xtol_abs": 0.0, "conv_options.min_radius": 0.0,
        "stop_options.max_iter": 200, "stop_options.max_eval": 2000, "stop_options.max_time": np.inf,
        "noise_adaptation_options.min_n_evals": 1, "noise_adaptation_options.max_n_evals": 30,
    }

    def lookup(out, key):
        head, _, tail = key.partition(".")
        return getattr(out[head], tail) if tail else out[head]

    def compare(kw, exp):
        out = process(**{**base, **kw})
        for key, v in exp.items():
            got = lookup(out, key)
            if not (got == v):
                viol.append(f"{case} with {kw}: {key} is {got!r} instead of {v!r}")
        if not np.array_equal(out["x"], x) or out["x"].dtype != np.float64 or not np.array_equal(out["trustregion"].center, x):
            viol.append(f"{case}: start point {out['x']}")
        if out["trustregion"].radius != lookup(out, "radius_options.initial_radius"):
            viol.append(f"{case} with {kw}: initial region has radius {out['trustregion'].radius}")
        if out["history"].functype != ft or out["history"].get_n_xs() != 1:
            viol.append(f"{case}: history is not initialized")
        return out

    out = compare({}, want)
    k += 1
    # one user setting at a time: everything else keeps its default
    single = {
        "disable_convergence": ("conv_options.disable", [True, 1]),
        "convergence_absolute_criterion_tolerance": ("conv_options.ftol_abs", [0.5, 1]), "convergence_absolute_gradient_tolerance": ("conv_options.gtol_abs", [0.25]),
        "convergence_absolute_params_tolerance": ("conv_options.xtol_abs", [0.125]), "convergence_relative_criterion_tolerance": ("conv_options.ftol_rel", [1e-3]),
        "convergence_relative_gradient_tolerance": ("conv_options.gtol_rel", [1e-4]), "convergence_relative_params_tolerance": ("conv_options.xtol_rel", [1e-5]),
        "convergence_min_trust_region_radius": ("conv_options.min_radius", [1e-2]),
        "stopping_max_criterion_evaluations": ("stop_options.max_eval", [17]), "stopping_max_iterations": ("stop_options.max_iter", [3]), "stopping_max_time": ("stop_options.max_time", [1.5, 2]),
        "sample_size": ("target_sample_size", [d + 1, 4 * d, float(3 * d)]), "search_radius_factor": ("search_radius_factor", [1.0, 9]),
        "n_evals_per_point": ("n_evals_per_point", [2, 5]), "n_evals_at_start": ("n_evals_at_start", [1, 7]),
    }
    for opt, (key, vals) in single.items():
        for v in vals:
            compare({opt: v}, {**want, key: v})
            k += 1
    for bundle, fields in (("radius_options", {"initial_radius": 0.7, "min_radius": 1e-3, "max_radius": 5.0, "rho_decrease": 0.2, "rho_increase": 0.3, "shrinking_factor": 0.25, "expansion_factor": 3.0, "large_step": 0.9, "max_radius_to_step_ratio": 4.0}),
                           ("stagnation_options", {"min_relative_step_keep": 0.5, "drop": noisy, "min_relative_step": 0.2, "sample_increment": 2, "max_trials": 3}),
                           ("noise_adaptation_options", {"rho_noise_n_draws": 7, "high_rho": 0.9, "low_rho": 0.2, "ignore_corelation": False, "min_share_high_rho": 0.3, "min_share_low_rho": 0.4, "max_n_evals": 9, "good_rho_threshold": 0.6})):
        for f, v in fields.items():
            compare({bundle: {f: v}}, {**want, f"{bundle}.{f}": v})
            k += 1
        compare({bundle: dict(fields)}, {**want, **{f"{bundle}.{f}": v for f, v in fields.items()}})
        msg = raises(lambda: process(**base, **{bundle: {"bad_field": 1}}), ValueError)
        if msg:
            viol.append(f"{case}: unknown field in {bundle} is {msg}")
    compare({"noise_adaptation_options": {"min_n_evals": 3}}, {**want, "n_evals_per_point": 3 if noisy else 1, "noise_adaptation_options.min_n_evals": 3})
    seen = []

    def size_fun(x, model_type):
        seen.append((np.array(x), model_type))
        return 11

    compare({"sample_size": size_fun}, {**want, "target_sample_size": 11})
    if not seen or not np.array_equal(seen[-1][0], x) or seen[-1][1] != mt:
        viol.append(f"{case}: sample_size function receives {seen}")
    # bounds reach the region
    lb, ub = x - 1.0, x + 2.0
    for kw in ({"lower_bounds": lb}, {"upper_bounds": ub}, {"lower_bounds": lb, "upper_bounds": ub}):
        o = process(**base, **kw)
        for side, name in (("lower", "lower_bounds"), ("upper", "upper_bounds")):
            got = getattr(o["trustregion"].bounds, side)
            if name in kw and not np.array_equal(got, kw[name]):
                viol.append(f"{case}: {name} of the region are {got}")
    # random numbers: sampling and simulation streams are determined by the seed and different
    for seed in (0, 5, 925408):
        o1, o2 = process(**base, seed=seed), process(**base, seed=seed)
        a, b = o1["sampling_rng"].random(4), o2["sampling_rng"].random(4)
        c, e = o1["simulation_rng"].random(4), o2["simulation_rng"].random(4)
        if not np.array_equal(a, b) or not np.array_equal(c, e) or np.array_equal(a, c):
            viol.append(f"{case}: generators are not determined by the seed {seed}")
    # fitter defaults
    from mc import geo
    reg = geo.region({"center": [0.0] * d, "radius": 1.0})
    z = np.vstack([np.zeros(d), 0.9 * np.eye(d), -0.7 * np.eye(d), 0.4 * np.ones((1, d))])
    nres = 1 if ft == "scalar" else 2
    y = np.column_stack([np.sin(z @ np.arange(1, d + 1) + r) for r in range(nres)])
    get_fitter = need("tranquilo.fit_models", "get_fitter")
    old = need("tranquilo.models", "VectorModel")(np.ones(nres) * 0.3, np.ones((nres, d)) * 0.5, None if mt == "linear" else np.zeros((nres, d, d)), scale=reg.effective_radius, shift=reg.effective_center)
    for sz in (None, (d + 1) * (d + 2) // 2, (d + 1) * (d + 2) // 2 - 1):
        s = size if sz is None else sz
        if s < 1:
            continue
        nm = "ols" if mt == "linear" or s >= (d + 1) * (d + 2) // 2 else "tranquilo"
        for fitter in (None, "ols", "tranquilo", "ridge"):
            for res in (None, True, False):
                kw = {k2: v for k2, v in (("sample_size", sz), ("model_fitter", fitter), ("residualize", res)) if v is not None}
                o = process(**base, **kw)
                name = fitter or nm
                ref = get_fitter(name, None, mt, (name == "tranquilo") if res is None else res, "relative")
                g = o["fit_model"](z, y, region=reg, old_model=old, weights=None)
                w = ref(z, y, region=reg, old_model=old, weights=None)
                k += 1
                if geo.err(g.linear_terms, w.linear_terms) > 1e-9 or geo.err(g.intercepts, w.intercepts) > 1e-9 or (mt == "quadratic" and geo.err(g.square_terms, w.square_terms) > 1e-9):
                    viol.append(f"{case} with {kw}: the fitter is not {name} (residualize {res})")
    # invalid values
    bad = [{"search_radius_factor": 0.0}, {"search_radius_factor": -1.0}, {"n_evals_per_point": 0}, {"n_evals_at_start": 0}, {"n_evals_per_point": -2}, {"n_evals_at_start": -1},
           {"model_type": "cubic"}, {"model_type": "Linear"}, {"residualize": "yes"}, {"residualize": 1}, {"sampler": "nope"}, {"sample_filter": "nope"}, {"model_fitter": "nope"},
           {"cube_subsolver": "nope"}, {"sphere_subsolver": "nope"}, {"cube_subsolver": "gqtpar"}, {"sphere_subsolver": "bntr"}, {"acceptance_decider": "nope"}, {"variance_estimator": "nope"},
           {"sampler_options": {"nope": 1}}, {"sample_filter_options": {"nope": 1}}, {"model_fitter_options": {"nope": 1}}, {"subsolver_options": {"nope": 1}},
           {"acceptance_decider_options": {"nope": 1}}, {"variance_estimator_options": {"nope": 1}}, {"no_such_argument": 1}, {"infinity_handler": 3}, {"batch_size": cores - 1}]
    for kw in bad:
        msg = raises(lambda: process(**{**base, **kw}), ValueError, TypeError, KeyError)
        k += 1
        if msg:
            viol.append(f"{case}: invalid {kw} is {msg}")
    # only the documented combinations of function and model type exist
    for m in ("linear", "quadratic"):
        f = lambda: process(**base, model_type=m)
        if m == mt:
            f()
        else:
            msg = raises(f, NotImplementedError, ValueError)
            if msg:
                viol.append(f"{case}: model_type {m} is {msg}")
    return Res(viol[:4], outcome=h64(want.get("batch_size"), size, noisy), states=[h64(case)], transitions=k, sample=case)


# ------------------------------------------------------------------------------ substitution in complete runs


SLOTS = {
    "sampler": ("sampler", None), "sample_filter": ("sample_filter", None), "fitter": ("model_fitter", None), "acceptance_decider": ("acceptance_decider", None),
    "variance_estimator": ("variance_estimator", None), "sphere_solver": ("sphere_subsolver", None), "cube_solver": ("cube_subsolver", None),
}


def c_runs(tier):
    for slot in SLOTS:
        for name in GETTERS[slot][3]:
            for ft in ("scalar", "least_squares"):
                for bounds in (None, "nn"):
                    if slot == "fitter" and name == "powell" and ft == "least_squares":
                        continue
                    if slot == "sphere_solver" and bounds or slot == "cube_solver" and not bounds:
                        continue
                    for kind in ("pos", "kw") if tier == "quick" else ("pos", "kw", "instance"):
                        yield {"slot": slot, "name": name, "ft": ft, "bounds": bounds, "kind": kind, "iters": 4 if tier == "quick" else 8}


RAW = {
    "sampler": ("tranquilo.sample_points", {"random_interior": "_interior_sampler", "random_hull": "_hull_sampler", "optimal_hull": "_optimal_hull_sampler"}),
}


def r_runs(case):
    """A user function that delegates to the built-in component gives the same optimization."""
    slot, name = case["slot"], case["name"]
    args = GETTERS[slot][4]
    kwname = SLOTS[slot][0]
    noisy = slot == "variance_estimator" or name in ("noisy", "naive_noisy")
    opts = {"disable_convergence": True, **({"noisy": True, "noise_adaptation_options": {"rho_noise_n_draws": 2}} if noisy else {})}
    if noisy and slot != "acceptance_decider":
        opts["acceptance_decider_options"] = {"n_max": 6}
    if name == "classic_line_search":
        opts["batch_size"] = 3
    if noisy:
        opts["seed"] = 3
    cfg = {"functype": case["ft"], "bounds": case["bounds"], "iters": case["iters"], "jitter": 0.1 if noisy else None}

    inner_slots = ("fitter", "sphere_solver", "cube_solver")
    calls = []
    if slot in inner_slots:
        # the raw component is only reachable as the function behind the name: capture what the getter hands out
        raw = raw_component(slot, name)
        if raw is None:
            return Res(nontrivial=False, outcome="component not reachable", extra={"component_not_reachable": 1})
    else:
        mod, gname, *_ = GETTERS[slot]
        raw = need(mod, gname)(name, {"n_max": 6} if name == "noisy" else None)

    ns = {"raw": raw, "calls": calls}
    sig = ", ".join(args)
    body = ", ".join(f"{a}={a}" for a in args)
    if case["kind"] == "instance":
        exec(f"class U:\n  def __call__(self, {sig}):\n    calls.append(1)\n    return raw({body})\nuser = U()\n", ns)
    elif case["kind"] == "kw":
        exec(f"def user({'*, ' if slot not in inner_slots else ''}{sig}):\n    calls.append(1)\n    return raw({body})\n", ns)
    else:
        exec(f"def user({', '.join(reversed(args))}):\n    calls.append(1)\n    return raw({body})\n", ns)
    o1 = {**opts, kwname: name}
    if name == "noisy":
        o1["acceptance_decider_options"] = {"n_max": 6}
    resid = {"residualize": name == "tranquilo"} if slot == "fitter" else {}
    a = driver.run_opt({**cfg, "opts": {**o1, **resid}})
    b = driver.run_opt({**cfg, "opts": {**opts, **resid, kwname: Shield(ns["user"])}})
    viol = []
    for r, t in ((a, "built-in"), (b, "user function")):
        if r.exc is not None:
            viol.append(f"{case} {t}: {type(r.exc).__name__} {r.exc} {r.tb}")
    if not viol:
        if not calls:
            viol.append(f"{case}: the user's function is never called")
        xa, xb = [c[0] for c in a.env.calls], [c[0] for c in b.env.calls]
        if len(xa) != len(xb) or any(not np.array_equal(p, q) for p, q in zip(xa, xb)):
            viol.append(f"{case}: the run with the user's function differs from the run with the built-in component")
    return Res(viol, outcome=h64(slot, name, case["ft"]), states=driver.state_hashes(a) + driver.state_hashes(b) if not viol else [], transitions=2 * case["iters"], sample=case)


class Shield:
    """Survives the deep copy of the options of a run."""

    def __new__(cls, f):
        try:
            f.__deepcopy__ = lambda memo: f
        except AttributeError:
            pass
        return f


def raw_component(slot, name):
    fd = {}
    mod = {"fitter": "tranquilo.fit_models", "sphere_solver": "tranquilo.solve_subproblem", "cube_solver": "tranquilo.solve_subproblem"}[slot]
    m = need(mod)
    orig = getattr(m, "get_component", None)
    if orig is None:
        return None

    def spy(*a, **kw):
        out = orig(*a, **kw)
        if (a[0] if a else kw.get("name_or_func")) == name:
            fd["f"] = out
        return out

    m.get_component = spy
    try:
        make(slot, name, None)
    finally:
        m.get_component = orig
    return fd.get("f")


SUBS = [
    Sub("bundles", c_bundles, r_bundles, chunk=1, what="all option bundles x fields x values x styles"),
    Sub("arguments", c_args, r_args, what="all declared argument sets x kinds of callables x call styles x handling modes"),
    Sub("getters", c_getters, r_getters, chunk=1, what="all component slots: names, near misses, options, argument subsets"),
    Sub("process", c_process, r_process, what="argument lattice of process_arguments"),
    Sub("runs", c_runs, r_runs, what="replacing a component by an equivalent user function does not change a run"),
]
