"""Explorer shared by all checks.

A check module provides
    PROPERTY, LEVEL, NATIVE, RULE, ASSUMPTIONS, and tasks(tier, seed) -> [(name, function, args)]
Every task is a bounded, exhaustive enumeration which runs in a forked process of its own and
drives the REAL code (a scratch build of /repo's working tree), comparing every execution with
a reference written here from the specification.  The parent watches the children: a crash of
the process (memory fault) or a case that does not end is a verdict about the case that was
running, which is recorded in shared memory before it is started.
"""
import hashlib
import json
import mmap
import os
import pickle
import signal
import sys
import time
import traceback

from . import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
CASE_BYTES = 8192
HANG_S = 240.0
MAX_VIOLATIONS = 8


class Stop(Exception):
    """Raised in a task when it has recorded enough violations."""


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, np.ndarray):
        return {"array": jsonable(x.tolist(), depth + 1), "dtype": str(x.dtype), "shape": list(x.shape)} \
            if x.size <= 400 else "array%s" % (x.shape,)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (list, tuple)):
        return [jsonable(i, depth + 1) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if hasattr(x, "toarray"):
        return {"sparse": jsonable(x.toarray(), depth + 1)}
    return repr(x)[:400]


class Ctx:
    """What a task uses to report what it covered and what it found."""

    def __init__(self, name, shared, known):
        self.name = name
        self._shared = shared
        self._known = known
        self.evaluations = 0      # executions of the real code compared with the reference
        self.transitions = 0      # steps of the real code explored
        self._states = set()      # distinct states/cases seen (hashes)
        self.nontrivial = 0
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.notes = {}
        self._case = None
        self._n = 0

    def case(self, obj):
        """Records the case about to be run (survives a crash of the process)."""
        self._case = obj
        self._n += 1
        raw = (str(obj).encode("utf-8", "replace"))[:CASE_BYTES - 32]
        self._shared[16:16 + len(raw) + 1] = raw + b"\0"
        self._shared[0:8] = self._n.to_bytes(8, "little")

    def beat(self):
        self._n += 1
        self._shared[0:8] = self._n.to_bytes(8, "little")

    def state(self, key):
        """Counts a distinct state; True when it is new."""
        h = hash(key)
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def ran(self, nontrivial=True, n=1):
        self.evaluations += n
        if nontrivial:
            self.nontrivial += n

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, sig, detail=None, case=None):
        """Reports a violation. sig names the kind of failure and, where the property is
        known to fail on a specific input, that input: known findings are matched on it."""
        case = self._case if case is None else case
        if sig in self._known:
            self.known_hits[sig] = self.known_hits.get(sig, 0) + 1
            return
        self.violations.append({"task": self.name, "sig": sig, "case": jsonable(case), "detail": jsonable(detail)})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop()

    def expect(self, cond, sig, detail=None):
        if not cond:
            self.fail(sig, detail() if callable(detail) else detail)
            return False
        return True

    def close(self, got, want, sig, rtol=1e-9, atol=1e-12, detail=None):
        """got == want elementwise within tolerance, same shape, NaN never accepted unless wanted."""
        import numpy as np
        g, w = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            self.fail(sig, {"got_shape": g.shape, "want_shape": w.shape, "got": g, "want": w, "detail": detail})
            return False
        with np.errstate(all="ignore"):
            same = (g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w))
        if not bool(np.all(same)):
            self.fail(sig, {"got": g, "want": w, "detail": detail})
            return False
        return True

    def call(self, sig, fn, *a, **k):
        """Runs the code under test; an exception is a violation. Returns (ok, value)."""
        try:
            return True, fn(*a, **k)
        except Stop:
            raise
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.fail(sig, {"raised": "%s: %s" % (type(e).__name__, str(e)[:300]),
                            "at": "%s:%s" % (os.path.basename(tb.filename), tb.lineno)})
            return False, None

    def raises(self, sig, exc, fn, *a, **k):
        """The code under test has to refuse: raise one of exc."""
        try:
            r = fn(*a, **k)
        except exc:
            return True
        except Stop:
            raise
        except Exception as e:
            self.fail(sig, {"raised instead": "%s: %s" % (type(e).__name__, str(e)[:300])})
            return False
        self.fail(sig, {"accepted": r})
        return False

    def result(self):
        return {"name": self.name, "evaluations": self.evaluations, "transitions": self.transitions,
                "states": len(self._states), "nontrivial": self.nontrivial, "samples": self.samples,
                "violations": self.violations, "known": self.known_hits, "notes": self.notes}


def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if not line.startswith("KNOWN-FINDING:"):
                continue
            head, _, text = line.partition(" :: ")
            fields = dict(f.split("=", 1) for f in head.split()[1:] if "=" in f)
            if fields.get("property") == prop:
                known[fields["sig"]] = text
    return known


def _child(task, out, shared, known, verbose):
    name, fn, args = task
    ctx = Ctx(name, shared, known)
    error = None
    if not verbose:
        # the code under test is chatty
        null = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush(), sys.stderr.flush()
        os.dup2(null, 1)
        os.dup2(null, 2)
    try:
        fn(ctx, *args)
    except Stop:
        pass
    except MemoryError:
        error = "MemoryError\n" + traceback.format_exc()
    except BaseException as e:  # an exception nobody expected: the case broke the code under test
        try:
            ctx.fail("unexpected-exception", {"raised": "%s: %s" % (type(e).__name__, str(e)[:300]),
                                              "trace": traceback.format_exc()[-1500:]})
        except Stop:
            pass
    with open(out, "wb") as f:
        pickle.dump((ctx.result(), error), f)
        f.flush()
    os._exit(0)


def run_tasks(tasks, known, jobs=8, verbose=False):
    """Runs the tasks in forked processes. Returns (results, hard errors)."""
    resdir = os.path.join(build.scratch(), "results")
    os.makedirs(resdir, exist_ok=True)
    pending = list(enumerate(tasks))
    running, began = {}, {}
    results, errors = [], []
    stop = False
    while pending or running:
        while pending and len(running) < jobs and not stop:
            i, task = pending.pop(0)
            shared = mmap.mmap(-1, CASE_BYTES)
            out = os.path.join(resdir, "%d.pkl" % i)
            pid = os.fork()
            if pid == 0:
                _child(task, out, shared, known, verbose)
            running[pid] = [i, task, shared, out, 0, time.time()]
            began[pid] = time.time()
        if stop:
            pending = []
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in running:
            i, task, shared, out, _, _ = running.pop(pid)
            if os.environ.get("VERIF_TIMES"):
                print("%8.1f s %s" % (time.time() - began[pid], task[0]), file=sys.stderr)
            if os.path.exists(out):
                res, err = pickle.load(open(out, "rb"))
                os.remove(out)
                results.append(res)
                if err:
                    errors.append((task[0], err))
            else:
                case = bytes(shared[16:]).split(b"\0", 1)[0].decode("utf-8", "replace")
                how = "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit %d" % os.WEXITSTATUS(status)
                if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL and not running.get("killed"):
                    errors.append((task[0], "killed (memory?) while running " + case))
                else:
                    results.append(crash(task[0], case, "process ended by " + how))
            continue
        now = time.time()
        for pid, rec in list(running.items()):
            n = int.from_bytes(rec[2][0:8], "little")
            if n != rec[4]:
                rec[4], rec[5] = n, now
            elif now - rec[5] > HANG_S:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                case = bytes(rec[2][16:]).split(b"\0", 1)[0].decode("utf-8", "replace")
                results.append(crash(rec[1][0], case, "no progress for %d s" % HANG_S))
                del running[pid]
        if sum(len(r["violations"]) for r in results) >= MAX_VIOLATIONS:
            stop = True
        time.sleep(0.01)
    return results, errors


def crash(name, case, how):
    return {"name": name, "evaluations": 0, "transitions": 0, "states": 0, "nontrivial": 0, "samples": [],
            "violations": [{"task": name, "sig": "crash", "case": case, "detail": how}], "known": {}, "notes": {}}


def main(mod, tier, seed, verbose=False):
    t0 = time.time()
    prop = mod.PROPERTY
    known = load_known(prop)
    build.prepare(mod.NATIVE, getattr(mod, "SCRIPTED", ()))
    tasks = mod.tasks(tier, seed)
    results, errors = run_tasks(tasks, known, jobs=int(os.environ.get("VERIF_JOBS", "8")), verbose=verbose)
    results.sort(key=lambda r: r["name"])
    violations = [v for r in results for v in r["violations"]]
    known_hits = {}
    for r in results:
        for k, n in r["known"].items():
            known_hits[k] = known_hits.get(k, 0) + n
    total = lambda f: sum(r[f] for r in results)
    samples = [s for r in results for s in [{"task": r["name"], "case": c} for c in r["samples"][:2]]]
    notes = {}
    for r in results:
        for k, n in r["notes"].items():
            notes[k] = notes.get(k, 0) + n
    cov = {
        "states": total("states"), "transitions": total("transitions"),
        "traces_validated_against_impl": total("evaluations"),
        "samples": samples[:24],
        "exhaustive": not violations and not errors,
        "rule": mod.RULE,
        "explanation": "The state space is that of the real code: each state is a distinct input, configuration or "
                       "program state within the bounds of `rule`; a transition is one call or step of the real code; "
                       "each trace was executed on the implementation and compared with the reference.",
        "per_task": {r["name"]: {"states": r["states"], "transitions": r["transitions"], "traces": r["evaluations"]}
                     for r in results},
    }
    if notes:
        cov["counts"] = notes
    if mod.LEVEL != "model_checking":
        cov["evaluations"] = total("evaluations")
        cov["distinct_nontrivial"] = min(total("nontrivial"), total("states"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s: %s tier, %d tasks, %d states, %d transitions, %d executions compared with the reference, %.1f s" %
          (prop, tier, len(tasks), cov["states"], cov["transitions"], total("evaluations"), time.time() - t0))
    for sig, n in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s sig=%s (%d cases) %s" % (prop, sig, n, known[sig]))
    for name, err in errors:
        print("ERROR in %s: %s" % (name, err))
    for v in violations[:MAX_VIOLATIONS]:
        text = json.dumps(v, indent=1, sort_keys=True)
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(text + "\n")
        print("  %s [%s] case=%s detail=%s" % (v["sig"], v["task"], json.dumps(v["case"])[:600], json.dumps(v["detail"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    if errors:
        return 2
    if total("evaluations") == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0
