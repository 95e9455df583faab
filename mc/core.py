"""Machinery shared by all checks.

A check module (mc/checks/pXX.py) defines

    LEVEL, RULE, TECHNIQUE-independent metadata
    SUBS: list of Sub(name, cases, run)

`cases(tier)` enumerates a finite space completely and in a fixed order (simplest cases
first); `run(case)` executes the real code on one case and returns a `Res` with the
violations it found. Every case is JSON-able, so a violation is replayed by calling `run`
on the recorded case. Cases are distributed over forked worker processes; nothing is
sampled. A case that hangs is killed and reported.
"""
import collections
import hashlib
import json
import os
import pickle
import re
import signal
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get("VERIF_EVIDENCE_DIR") or ROOT / "evidence")
N_WORKERS = int(os.environ.get("VERIF_WORKERS") or max(1, min(8, os.cpu_count() or 1)))
# for campaigns over many changed trees: stop at the first new violation
FAILFAST = os.environ.get("VERIF_FAILFAST") == "1"


class Unavailable(Exception):
    """An interface a sub-check drives does not exist in this tree."""


def need(module, name=None):
    """Import a public function; a missing one makes the sub-check unavailable."""
    import importlib

    try:
        mod = importlib.import_module(module)
        return getattr(mod, name) if name else mod
    except (ImportError, AttributeError) as e:
        raise Unavailable(f"{module}.{name}: {e}") from e


class Res:
    __slots__ = ("extra", "nontrivial", "outcome", "sample", "states", "transitions", "viol")

    def __init__(self, viol=(), nontrivial=True, outcome=None, states=(), transitions=0, extra=None, sample=None):
        self.viol = list(viol)
        self.nontrivial = nontrivial
        self.outcome = outcome
        self.states = states
        self.transitions = transitions
        self.extra = extra or {}
        self.sample = sample


class Sub:
    def __init__(self, name, cases, run, timeout=100, chunk=None, what="", max_viol=0):
        self.name = name
        self.cases = cases
        self.run = run
        self.timeout = timeout
        self.chunk = chunk
        self.what = what
        self.max_viol = max_viol


def h64(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return jsonable(o.item())
    if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
        return {"__f__": repr(o)}
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def unjson(o):
    if isinstance(o, dict):
        if set(o) == {"__f__"}:
            return float(o["__f__"])
        return {k: unjson(v) for k, v in o.items()}
    if isinstance(o, list):
        return [unjson(v) for v in o]
    return o


# ======================================================================================
# Workers
# ======================================================================================


class _Hang(Exception):
    pass


def _alarm(signum, frame):
    raise _Hang()


_SIGNATURE = re.compile(r"unexpected keyword argument|missing \d+ required|takes .* positional argument|multiple values for")


def _interface_changed(e):
    """The harness itself called an internal function in a way the function does not accept (any more)."""
    if not isinstance(e, TypeError) or not _SIGNATURE.search(str(e)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(str(ROOT / "mc"))


def run_case(sub, case):
    """Run one case; exceptions of the code under test are violations of the case."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(sub.timeout))
    try:
        return sub.run(case)
    except Unavailable:
        raise
    except _Hang:
        return Res([f"did not terminate within {sub.timeout} s"], outcome="hang")
    except MemoryError:
        raise
    except Exception as e:
        if _interface_changed(e):
            raise Unavailable(f"{type(e).__name__}: {e}") from e
        tb = traceback.format_exc().strip().splitlines()
        return Res([f"unexpected {type(e).__name__}: {str(e)[:300]} | " + " / ".join(t.strip() for t in tb[-5:-1])[:500]],
                   outcome=f"exc:{type(e).__name__}")
    finally:
        signal.alarm(0)


class Agg:
    """Aggregated result of a chunk of cases."""

    def __init__(self, name=""):
        self.name = name
        self.n = 0
        self.nontrivial = set()
        self.outcomes = collections.Counter()
        self.states = set()
        self.transitions = 0
        self.extra = collections.Counter()
        self.viol = []
        self.samples = []
        self.unavailable = None

    def add(self, case, r):
        self.n += 1
        if r.nontrivial:
            self.nontrivial.add(h64(self.name, case))
        if r.outcome is not None:
            self.outcomes[r.outcome] += 1
        self.states.update(r.states)
        self.transitions += r.transitions
        self.extra.update(r.extra)
        if r.sample is not None and not self.samples:
            self.samples.append(r.sample)
        if r.viol and len(self.viol) < 200:
            self.viol.append((case, r.viol))
        if r.viol:
            self.extra["_violating_cases"] += 1

    def merge(self, o):
        self.n += o.n
        self.nontrivial |= o.nontrivial
        self.outcomes += o.outcomes
        self.states |= o.states
        self.transitions += o.transitions
        self.extra.update(o.extra)
        self.viol += o.viol
        self.samples += o.samples[: max(0, 3 - len(self.samples))]
        self.unavailable = self.unavailable or o.unavailable


def _worker(sub, rd, wr):
    """Read chunks of cases from a pipe, write aggregates."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    fin = os.fdopen(rd, "rb")
    fout = os.fdopen(wr, "wb")
    while True:
        try:
            chunk = pickle.load(fin)
        except EOFError:
            break
        if chunk is None:
            break
        agg = Agg(sub.name)
        for case in chunk:
            try:
                agg.add(case, run_case(sub, case))
            except Unavailable as e:
                agg.unavailable = str(e)
                break
        pickle.dump(agg, fout)
        fout.flush()
    os._exit(0)


class _W:
    def __init__(self, sub):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                _worker(sub, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.fin = os.fdopen(r2, "rb")
        self.fout = os.fdopen(w1, "wb")
        self.chunk = None
        self.t0 = 0

    def send(self, chunk):
        self.chunk = chunk
        self.t0 = time.time()
        pickle.dump(chunk, self.fout)
        self.fout.flush()

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.close()

    def close(self):
        # other workers hold copies of the pipe: an explicit end marker is needed
        try:
            pickle.dump(None, self.fout)
            self.fout.flush()
        except (OSError, ValueError):
            pass
        for f in (self.fin, self.fout):
            try:
                f.close()
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def _chunks(it, n):
    buf = []
    for c in it:
        buf.append(c)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


def explore(sub, tier, deadline, max_viol=20):
    """Run all cases of a sub-check. Returns (Agg, complete)."""
    import select

    total = Agg()
    cases = list(sub.cases(tier))
    n_cases = len(cases)
    if n_cases == 0:
        return total, True
    chunk = sub.chunk or max(1, min(200, n_cases // (N_WORKERS * 12) or 1))
    it = _chunks(cases, chunk)
    todo = collections.deque()
    workers = []
    complete = True
    sys.stdout.flush()
    sys.stderr.flush()

    def next_chunk():
        if todo:
            return todo.popleft()
        return next(it, None)

    for _ in range(min(N_WORKERS, max(1, (n_cases + chunk - 1) // chunk))):
        c = next_chunk()
        if c is None:
            break
        w = _W(sub)
        w.send(c)
        workers.append(w)
    stop = False
    while workers:
        ready, _, _ = select.select([w.fin for w in workers], [], [], 1.0)
        for w in list(workers):
            if w.fin in ready:
                try:
                    agg = pickle.load(w.fin)
                except (EOFError, pickle.UnpicklingError):
                    # the worker died (e.g. a crash in compiled code)
                    bad = w.chunk
                    w.kill()
                    workers.remove(w)
                    if len(bad) > 1:
                        todo.extend([[c] for c in bad])
                    else:
                        a = Agg(sub.name)
                        a.add(bad[0], Res(["the process died while running this case"], outcome="died"))
                        total.merge(a)
                    c = None if stop else next_chunk()
                    if c is not None:
                        nw = _W(sub)
                        nw.send(c)
                        workers.append(nw)
                    continue
                total.merge(agg)
                if len(total.viol) >= (max(max_viol, sub.max_viol) if max_viol > 1 else 1) or total.unavailable:
                    stop = True
                if time.time() > deadline:
                    stop = True
                c = None if stop else next_chunk()
                if c is None:
                    w.close()
                    workers.remove(w)
                else:
                    w.send(c)
            elif time.time() - w.t0 > sub.timeout * 1.5 + 30 and len(w.chunk) == 1 or time.time() - w.t0 > 400:
                bad = w.chunk
                w.kill()
                workers.remove(w)
                if len(bad) > 1:
                    todo.extend([[c] for c in bad])
                else:
                    a = Agg(sub.name)
                    a.add(bad[0], Res(["did not terminate"], outcome="hang"))
                    total.merge(a)
                c = None if stop else next_chunk()
                if c is not None:
                    nw = _W(sub)
                    nw.send(c)
                    workers.append(nw)
        if time.time() > deadline + 60:
            for w in workers:
                w.kill()
            workers = []
            stop = True
    if stop and total.n < n_cases:
        complete = False
    total.extra["_cases_total"] = n_cases
    return total, complete


# ======================================================================================
# Known findings
# ======================================================================================


def known_findings(pid):
    """Lines `finding: property=<id> key=<key> <what>` of the known-findings file."""
    out = {}
    path = ROOT / "KNOWN_FINDINGS"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("finding: ") and f"property={pid} " in line:
                rest = line.split("key=", 1)[1]
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


def case_key(pid, sub, case):
    return f"{sub}:{h64(json.dumps(jsonable(case), sort_keys=True)):016x}"


# ======================================================================================
# One check
# ======================================================================================


def run_check(mod, pid, tier, seed):
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "400" if tier == "quick" else "7200"))
    deadline = t0 + budget
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    (EVIDENCE / "replay").mkdir(exist_ok=True)
    if hasattr(mod, "warmup"):
        try:
            mod.warmup(tier)
        except Exception:
            traceback.print_exc()
    known = known_findings(pid)
    total = Agg()
    per_sub = {}
    complete = True
    max_viol = 1 if FAILFAST and not known else 20
    new_viol = []
    seen_known = []
    unavailable = {}
    only = os.environ.get("VERIF_SUB")
    for sub in mod.SUBS:
        if only and sub.name not in only.split(","):
            continue
        ts = time.time()
        try:
            agg, comp = explore(sub, tier, deadline, max_viol)
        except Unavailable as e:
            unavailable[sub.name] = str(e)
            continue
        if agg.unavailable:
            unavailable[sub.name] = agg.unavailable
        complete = complete and comp
        per_sub[sub.name] = {
            "what": sub.what,
            "cases": agg.n,
            "distinct_nontrivial": len(agg.nontrivial),
            "distinct_outcomes": len(agg.outcomes),
            "outcomes": {str(k)[:160]: v for k, v in agg.outcomes.most_common(12)},
            "states": len(agg.states),
            "transitions": agg.transitions,
            "complete": comp,
            "wall_s": round(time.time() - ts, 2),
            **{k: v for k, v in agg.extra.items() if not k.startswith("_")},
        }
        for case, viols in agg.viol:
            key = case_key(pid, sub.name, case)
            if key in known:
                seen_known.append((key, known[key]))
            else:
                new_viol.append((sub.name, case, viols))
        if FAILFAST and new_viol:
            print(f"VIOLATION property={pid} sub={sub.name}: {new_viol[0][2][0][:300]}")
            return 1
        # state hashes and case hashes of different subs are disjoint by construction
        total.merge(agg)
        print(f"[{pid}] {sub.name}: cases={agg.n} nontrivial={len(agg.nontrivial)} outcomes={len(agg.outcomes)} "
              f"states={len(agg.states)} transitions={agg.transitions} complete={comp} violations={len(agg.viol)} "
              f"({time.time() - ts:.1f} s)", flush=True)

    level = mod.LEVEL
    cov = {
        "evaluations": total.n,
        "distinct_nontrivial": len(total.nontrivial),
        "rule": mod.RULE,
        "samples": [jsonable(s) for s in total.samples] or [jsonable(next(iter(mod.SUBS[0].cases(tier)), None))],
        "exhaustive": bool(complete and not unavailable),
        "distinct_outcomes": len(total.outcomes),
        "per_sub": per_sub,
    }
    if level == "model_checking":
        cov["states"] = len(total.states)
        cov["transitions"] = total.transitions
        cov["traces_validated_against_impl"] = total.n
    if unavailable:
        cov["unavailable"] = unavailable
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new_viol),
    }
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for key, what in sorted(set(seen_known)):
        print(f"KNOWN-FINDING: property={pid} {what}")
    if unavailable:
        print(f"[{pid}] unavailable: {unavailable}")
    if new_viol:
        for n, (sname, case, viols) in enumerate(new_viol[:5]):
            path = EVIDENCE / "replay" / f"{pid}-{n}.json"
            path.write_text(json.dumps({"property": pid, "sub": sname, "case": jsonable(case), "violations": viols}, indent=1))
            print(f"[{pid}] {sname}: {viols[0][:600]}")
            if n == 0:
                first = path
        print(f"VIOLATION property={pid} replay={first}")
        return 1
    print(f"[{pid}] held on everything explored: {total.n} executions, {ev['wall_s']} s, exhaustive={cov['exhaustive']}")
    return 0


def replay(mod, rec):
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    if hasattr(mod, "warmup"):
        mod.warmup("quick")
    r = run_case(sub, unjson(rec["case"]))
    return r.viol
