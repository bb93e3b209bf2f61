"""Bounded exhaustive exploration framework.

A check module (mc/checks/cNN.py) provides

    PROPERTY   the property id
    TECHNIQUE  one line
    cases(tier)            -> iterable of JSON-able cases (a case is one root of
                              the explored space: one input, one configuration,
                              one history prefix ...); must not import scaks
    run_case(case, rec)    -> explores everything below the root on the real
                              code, comparing every step with the reference
    bounds(tier)           -> dict describing the bound (goes to the evidence)
    ASSUMPTIONS            list of str

The runner shards the cases over forked workers (each in its own scratch
directory), merges what was covered, writes evidence/<id>.json and reports the
first violation in case order.  Nothing is sampled: the whole case list is
explored, in a fixed order, for every seed.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCAKS_REPO", "/repo")


class CaseViolation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key, self.msg = key, msg


class CaseTimeout(BaseException):
    pass


class InfraError(Exception):
    """The harness itself could not do its work: an error exit, no verdict."""


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=10).digest()


class Recorder(object):
    """What one worker covered."""

    def __init__(self, known):
        self.known = known            # set of known-finding keys for this property
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.counters = {}
        self.samples = []
        self.known_hits = set()

    # -- coverage ------------------------------------------------------
    def state(self, obj):
        """Register an explored state; True if it was not seen before."""
        d = digest(obj)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    # -- verdict -------------------------------------------------------
    def fail(self, key, msg):
        if key in self.known:
            self.known_hits.add(key)
            return
        raise CaseViolation(key, msg)

    def check(self, cond, key, msg=""):
        """key identifies what fails (used to match known findings)."""
        if not cond:
            self.fail(key, msg() if callable(msg) else (msg or key))
        return bool(cond)


# ----------------------------------------------------------------------
def load_known(pid):
    """known_findings.txt: lines 'known: property=<id> key=<key> :: <text>' and
    'fixed: property=<id> <commit> <text>' (a fixed line suppresses nothing)."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: property=%s " % pid):
                continue
            rest = line[len("known: property=%s " % pid):]
            k, text = rest.split(" :: ", 1)
            assert k.startswith("key=")
            known[k[4:]] = text
    return known


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_one(mod, case, rec, limit):
    """Returns None or (key, message)."""
    from . import env
    env.enter_case()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run_case(case, rec)
        return None
    except CaseViolation as e:
        return (e.key, e.msg)
    except CaseTimeout:
        return ("timeout", "no answer within %d s" % limit)
    except (MemoryError, InfraError):
        raise
    except OSError as e:
        if e.errno in (28, 24, 12, 11):      # ENOSPC EMFILE ENOMEM EAGAIN
            raise InfraError(repr(e))
        return ("exception", "unexpected exception:\n" + traceback.format_exc())
    except (Exception, SystemExit):
        return ("exception", "unexpected exception:\n" + traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        env.leave_case()


def _worker(mod_name, cases, idx, nworkers, known, limit, out_path, stop_flag, root):
    from . import env
    os.makedirs(root, exist_ok=True)
    env.setup(root)
    mod = importlib.import_module(mod_name)
    rec = Recorder(known)
    violation = None
    infra = None
    done = 0
    try:
        if hasattr(mod, "worker_init"):
            mod.worker_init()
    except Exception:
        violation = (0, "exception", "the code under test could not be loaded:\n"
                     + traceback.format_exc())
    if violation is None:
        for i in range(idx, len(cases), nworkers):
            if stop_flag.value and stop_flag.value - 1 < i:
                break
            try:
                r = _run_one(mod, cases[i], rec, limit)
            except BaseException:
                infra = traceback.format_exc()
                break
            done += 1
            if r is not None:
                violation = (i, r[0], r[1])
                with stop_flag.get_lock():
                    if not stop_flag.value or stop_flag.value - 1 > i:
                        stop_flag.value = i + 1
                break
    import pickle
    with open(out_path + ".tmp", "wb") as f:
        pickle.dump(dict(states=rec.states, outcomes=rec.outcomes,
                         transitions=rec.transitions, traces=rec.traces,
                         counters=rec.counters, samples=rec.samples,
                         known_hits=rec.known_hits, violation=violation,
                         infra=infra, done=done), f)
    os.rename(out_path + ".tmp", out_path)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def main(argv):
    import argparse
    import multiprocessing
    import pickle
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.property.upper()
    mod_name = "mc.checks." + pid.lower()
    t0 = time.time()
    mod = importlib.import_module(mod_name)
    known = load_known(pid)
    if getattr(mod, "CRASH", False) and "MC_CRASH" not in os.environ:
        from . import crash
        return crash.reexec(argv)

    # never inherit a scratch location inside /repo or /verif
    scratch = tempfile.mkdtemp(prefix="scaks-mc-%s-" % pid.lower())
    try:
        if a.replay:
            doc = json.load(open(a.replay))
            cases = [doc["case"]]
            known = {} if doc.get("ignore_known") else known
        else:
            cases = list(mod.cases(a.tier))
        if a.list:
            for c in cases:
                print(json.dumps(jsonable(c)))
            return 0
        cases = json.loads(json.dumps(jsonable(cases)))
        limit = getattr(mod, "CASE_LIMIT", 240)
        n = max(1, min(a.jobs, len(cases), getattr(mod, "MAX_JOBS", 8)))
        ctx = multiprocessing.get_context("fork")
        stop_flag = ctx.Value("i", 0)
        procs, outs = [], []
        sys.stdout.flush()
        for i in range(n):
            out = os.path.join(scratch, "out%d" % i)
            p = ctx.Process(target=_worker,
                            args=(mod_name, cases, i, n, set(known), limit, out,
                                  stop_flag, os.path.join(scratch, "w%d" % i)))
            p.start()
            procs.append(p)
            outs.append(out)
        for p in procs:
            p.join()
        results = []
        for p, out in zip(procs, outs):
            if not os.path.exists(out):
                print("ERROR: a worker ended without a result (exit %s)" % p.exitcode)
                return 2
            results.append(pickle.load(open(out, "rb")))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    for r in results:
        if r["infra"]:
            print("ERROR: " + r["infra"])
            return 2

    states, outcomes, known_hits = set(), set(), set()
    counters, samples = {}, []
    transitions = traces = done = 0
    for r in results:
        states |= r["states"]
        outcomes |= r["outcomes"]
        known_hits |= r["known_hits"]
        transitions += r["transitions"]
        traces += r["traces"]
        done += r["done"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    for r in results:
        samples.extend(r["samples"][:1])
    samples = (samples + [s for r in results for s in r["samples"][1:]])[:6]
    violations = sorted([r["violation"] for r in results if r["violation"]])

    if a.replay:
        if violations:
            i, key, msg = violations[0]
            print("replayed %s: %s\n%s" % (a.replay, key, msg))
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("replayed %s: no violation" % a.replay)
        return 0

    coverage = dict(
        states=len(states), transitions=transitions,
        traces_validated_against_impl=traces,
        distinct_outcomes=len(outcomes),
        cases=len(cases), cases_explored=done,
        exhaustive=(done == len(cases) and not violations),
        bounds=jsonable(mod.bounds(a.tier)) if hasattr(mod, "bounds") else {},
        counters=counters,
        samples=jsonable(samples) or [jsonable(cases[0])],
        rule=getattr(mod, "RULE", ""),
        known_findings_reproduced=sorted(known_hits),
    )
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="model_checking", coverage=coverage,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 3), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], k))
    print("%s %s: %d cases, %d states, %d transitions, %d traces on the real code, "
          "%d distinct outcomes, %.1f s" % (pid, a.tier, done, len(states), transitions,
                                            traces, len(outcomes), time.time() - t0))
    if violations:
        i, key, msg = violations[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(dict(property=pid, case=cases[i], key=key, message=msg,
                           replay="%s/check %s --replay %s" % (VERIF, pid, path)),
                      f, indent=1)
        print("counterexample: %s" % json.dumps(cases[i])[:2000])
        print("%s: %s" % (key, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    missing = [k for k in known if k not in known_hits]
    for k in missing:
        print("note: known finding %s not reproduced in this run" % k)
    return 0


if __name__ == "__main__":
    from mc import core             # not the copy called __main__
    sys.exit(core.main(sys.argv[1:]))
