"""Child process that executes solvers with numba in interpreted mode (see checks/p23.py)."""
import os
import pickle
import subprocess
import sys
from pathlib import Path

NAMES = {
    "gqtpar": ("tranquilo.subsolvers.gqtpar", "gqtpar"),
    "gqtpar_fast": ("tranquilo.subsolvers.gqtpar_fast", "gqtpar_fast"),
    "bntr": ("tranquilo.subsolvers.bntr", "bntr"),
    "bntr_fast": ("tranquilo.subsolvers.bntr_fast", "bntr_fast"),
    "cg": ("tranquilo.subsolvers._conjugate_gradient", "minimize_trust_cg"),
    "cg_fast": ("tranquilo.subsolvers._conjugate_gradient_fast", "minimize_trust_cg_fast"),
    "steihaug_toint": ("tranquilo.subsolvers._steihaug_toint", "minimize_trust_stcg"),
    "steihaug_toint_fast": ("tranquilo.subsolvers._steihaug_toint_fast", "minimize_trust_stcg_fast"),
    "trsbox": ("tranquilo.subsolvers._trsbox", "minimize_trust_trsbox"),
    "trsbox_fast": ("tranquilo.subsolvers._trsbox_fast", "minimize_trust_trsbox_fast"),
}


def call(name, g, h, kw):
    """Run one solver; returns (x, criterion, success) or the name of the exception."""
    import numpy as np

    from mc.core import need

    f = need(*NAMES[name])
    g = np.ascontiguousarray(g, dtype=float)
    h = np.ascontiguousarray(h, dtype=float)
    kw = {k: (np.array(v, float) if isinstance(v, list) else v) for k, v in kw.items()}
    try:
        if name.startswith(("gqtpar", "bntr")):
            SM = need("tranquilo.models", "ScalarModel")
            r = f(SM(intercept=0.0, linear_terms=g, square_terms=h), **kw)
            return np.array(r["x"], float), float(np.asarray(r["criterion"]).reshape(())), bool(r["success"])
        r = f(g.copy(), h, **kw)
        return np.array(r, float), None, None
    except Exception as e:
        return type(e).__name__


_child = None


def interpreted(reqs):
    """Run a list of requests in the child of this process."""
    global _child
    if _child is None or _child[1] != os.getpid():
        env = {**os.environ, "NUMBA_DISABLE_JIT": "1"}
        root = str(Path(__file__).resolve().parent.parent)
        _child = (subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mc.interp"], cwd=root, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL), os.getpid())
    p = _child[0]
    pickle.dump(reqs, p.stdin)
    p.stdin.flush()
    return pickle.load(p.stdout)


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        try:
            reqs = pickle.load(sys.stdin.buffer)
        except EOFError:
            return
        pickle.dump([call(*r) for r in reqs], out)
        out.flush()


if __name__ == "__main__":
    main()
