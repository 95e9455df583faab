"""Entry point: run one check, write its evidence, print its verdict."""
import importlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def _module(pid):
    return importlib.import_module(f"mc.checks.{pid.lower()}")


def selftest():
    """The libraries and /repo can be imported; no state is kept."""
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    import tranquilo.tranquilo as t

    src = Path(t.__file__).resolve()
    print("code under test:", src)
    return 0 if str(src).startswith("/repo/") else 2


def main(argv):
    # The interpreted mode of numba is the default: it needs no compilation and runs the
    # same source. Checks that need compiled code set JIT = True (see `reexec`).
    if argv and argv[0] == "replay":
        rec = json.loads(Path(argv[1]).read_text())
        pid = rec["property"]
    else:
        pid = argv[0].upper()
    if pid == "SELFTEST":
        return selftest()
    jit = pid == "P23"
    os.environ["NUMBA_DISABLE_JIT"] = "0" if jit else "1"

    from mc import core

    if argv[0] == "replay":
        mod = _module(pid)
        viol = core.replay(mod, rec)
        for v in viol:
            print("reproduced:", v)
        print("violations on replay:", len(viol))
        return 1 if viol else 0

    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return core.run_check(_module(pid), pid, tier, seed)


if __name__ == "__main__":
    t0 = time.time()
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
