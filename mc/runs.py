"""Shared definition of run-level sub-checks: a case is a run configuration."""
from mc import driver, oracles
from mc.core import Res


def judge(run, checks):
    viol = []
    for c in checks:
        viol += c(run)
        if viol:
            break
    return viol


def outcome(run):
    """Observable summary used to show that the exploration is not vacuous."""
    if run.res is None:
        return f"exc:{type(run.exc).__name__}"
    acc = "".join("a" if s.accepted else "r" for s in run.states[1:])
    shapes = "".join(sorted({s.trustregion.shape[0] for s in run.states}))
    return f"{acc}:{shapes}:{run.res['message']}"


def run_case(cfg, checks, allow_exc=False):
    run = driver.run_opt(cfg)
    viol = [] if allow_exc else oracles.no_exception(run)
    if not viol and run.exc is None:
        viol = judge(run, checks)
    n_it = len(run.states) - 1 if run.res is not None else 0
    return Res(viol, nontrivial=n_it >= 1, outcome=outcome(run), states=driver.state_hashes(run), transitions=n_it,
               extra={"criterion_calls": len(run.env.calls)},
               sample={"config": cfg, "outcome": outcome(run), "calls": len(run.env.calls)})


def product_cfg(**axes):
    """Cartesian product of configuration axes; 'opts' values are merged."""
    import itertools

    keys = list(axes)
    for combo in itertools.product(*(axes[k] for k in keys)):
        cfg, opts = {}, {}
        for k, v in zip(keys, combo):
            if k.startswith("opts"):
                opts.update(v)
            elif k.startswith("cfg"):
                cfg.update(v)
            else:
                cfg[k] = v
        if opts:
            cfg["opts"] = {**cfg.get("opts", {}), **opts}
        yield cfg


FT = ["scalar", "least_squares", "likelihood"]
LINE = {"acceptance_decider": "classic_line_search"}


def batch(n, n_cores=None):
    return {"batch_size": n, "n_cores": n_cores or 1}
