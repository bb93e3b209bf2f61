"""C23: partitioning of work over processes."""
import os
from .. import procs

PROPERTY = "C23"
TECHNIQUE = ("bounded exhaustive enumeration of process counts x amounts of work x sequence types, executed as real processes that "
             "communicate through a controlled communicator (every order of dependent operations); parts compared with the "
             "definition of a partition")
RULE = "a state is (number of processes, amount of work, kind of sequence, what the processes did); a transition one call"
ASSUMPTIONS = ["an MPI communicator with the weakest semantics of each collective"]
CASE_LIMIT = 600
KINDS = ["list", "tuple", "str", "range", "nested", "none"]


def bounds(tier):
    return dict(processes="1..%d" % (12 if tier == "quick" else 24), work="0..%d" % (60 if tier == "quick" else 150), sequences=KINDS, without_mpi4py=True)


def cases(tier):
    n, k = (12, 60) if tier == "quick" else (24, 150)
    alone = [dict(alone=True, lo=j, hi=min(j + 19, k)) for j in range(0, k + 1, 20)]
    return alone + [dict(n=i, lo=j, hi=min(j + 9, k)) for i in range(1, n + 1) for j in range(0, k + 1, 10)]


def worker_init():
    import scaks.mpicommons


def seq(kind, n):
    return {"list": list(range(n)), "tuple": tuple("x%d" % i for i in range(n)), "str": "".join(chr(97 + i % 26) for i in range(n)),
            "range": range(n), "nested": [[i, [i]] for i in range(n)], "none": [None] * n}[kind]


def program(rank, size, lo, hi):
    from scaks.mpicommons import mpi, master_only
    out = dict(rank=mpi.rank, size=mpi.size, master=mpi.is_master, results={})
    calls = []

    @master_only
    def only(x, y=1):
        "doc"
        calls.append((x, y))
        return x + y
    out["only"] = (only(3, y=4), calls, only.__name__, only.__doc__)
    for n in range(lo, hi + 1):
        out["results"]["size %d" % n] = mpi.split_size(n)
        for kind in KINDS:
            s = seq(kind, n)
            part = mpi.split_seq(s)
            out["results"][kind, n] = (type(part).__name__, list(part), s == seq(kind, n))
            out["results"]["merge", kind, n] = mpi.merge_seq(part)
        # merging what other work left: parts of any size, in rank order
        out["results"]["uneven", n] = mpi.merge_seq([(rank, i) for i in range((n + rank) % 4)])
        out["results"]["bcast", n] = mpi.bcast(["from", rank, n])
        mpi.barrier()
    return out


ALONE = '''
import os, pickle, sys
sys.modules["mpi4py"] = None
sys.path[:0] = [%r, %r]
from mc.checks import c23
out = c23.program(0, 1, %d, %d)
from scaks.models.micro_kinetic_model import MicroKineticModel
from mc import build, ref
m = build.mkm(ref.Mech(["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s"]), energies=([0.5, 0.6], [0.1, -0.05]), tolerance=1e-10)
m.run(init_cvgs=[0.2, 0.3], coarse_guess=False)
out["run"] = [float(x) for x in m.steady_state_coverages], m.data_file, m.log_allowed, sorted(f for f in os.listdir(".") if f.endswith(".pkl"))
with open("alone.out", "wb") as f:
    pickle.dump(out, f)
'''


def alone(c, rec):
    """An installation without mpi4py is one process that does all the work."""
    import pickle
    import subprocess
    import sys
    import scaks
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    tree = os.path.dirname(os.path.dirname(os.path.abspath(scaks.__file__)))
    for f in ("alone.out", "data.pkl"):
        if os.path.exists(f):
            os.remove(f)
    r = subprocess.run([sys.executable, "-c", ALONE % (here, tree, c["lo"], c["hi"])], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    rec.check(r.returncode == 0, "without mpi4py", lambda: r.stderr.decode("utf8", "replace")[-1500:])
    with open("alone.out", "rb") as f:
        out = pickle.load(f)
    rec.check((out["rank"], out["size"], out["master"]) == (0, 1, True), "identity", lambda: "without mpi4py: %r" % ((out["rank"], out["size"], out["master"]),))
    rec.check(out["only"] == (7, [(3, 4)], "only", "doc"), "master only", lambda: "without mpi4py: %r" % (out["only"],))
    for k in range(c["lo"], c["hi"] + 1):
        g = out["results"]
        rec.check(type(g["size %d" % k]) is int and g["size %d" % k] == k, "partial sizes", lambda: "%d without mpi4py: %r" % (k, g["size %d" % k]))
        for kind in KINDS:
            w = list(seq(kind, k))
            rec.check(g[kind, k] == (type(seq(kind, k)[0:k]).__name__, w, True), "parts", lambda: "%s of %d without mpi4py: %r" % (kind, k, g[kind, k]))
            rec.check(list(g["merge", kind, k]) == w, "merged", lambda: "%s of %d without mpi4py: %r" % (kind, k, g["merge", kind, k]))
            rec.state(("alone", kind, k))
            rec.step()
        rec.check(g["uneven", k] == [(0, i) for i in range(k % 4)], "merged", lambda: "uneven without mpi4py: %r" % (g["uneven", k],))
        rec.check(g["bcast", k] == ["from", 0, k], "broadcast", lambda: "without mpi4py: %r" % (g["bcast", k],))
        rec.outcome(("alone", k))
    # single sites: CO_s = 0.1 eV uphill, O_s 0.05 downhill for two
    cv, name, log, files = out["run"]
    T, kB = 450.0, 8.617333262e-5
    import math
    a, b = math.exp(-0.1 / kB / T), math.exp(0.025 / kB / T)
    free = 1 / (1 + a + b)
    rec.check(len(cv) == 2 and abs(cv[0] - a * free) < 1e-6 and abs(cv[1] - b * free) < 1e-6, "run", lambda: "a run without mpi4py gives %r" % (cv,))
    rec.check((name, bool(log), files) == ("data.pkl", True, ["data.pkl"]), "run", lambda: "without mpi4py: data file %r, log %r, files %r" % (name, log, files))
    rec.trace()
    rec.sample(dict(without_mpi4py=[c["lo"], c["hi"]], run=cv))


def run_case(c, rec):
    if c.get("alone"):
        return alone(c, rec)
    n = c["n"]
    base = os.getcwd()

    def judge(outcome, files, schedule):
        rec.check(not isinstance(outcome, str), "waits forever", lambda: "%d processes: %s" % (n, outcome))
        for r, (kind, value) in enumerate(outcome):
            rec.check(kind == "done", "a process failed", lambda: "process %d of %d\n%s" % (r, n, value))
        res = [v for _, v in outcome]
        for r in range(n):
            rec.check((res[r]["rank"], res[r]["size"], res[r]["master"]) == (r, n, r == 0), "identity", lambda: "process %d of %d: %r" % (r, n, res[r]))
            rec.check(res[r]["only"] == ((7, [(3, 4)], "only", "doc") if r == 0 else (None, [], "only", "doc")), "master only",
                      lambda: "process %d of %d: %r" % (r, n, res[r]["only"]))
        for k in range(c["lo"], c["hi"] + 1):
            get = lambda key: [x["results"][key] for x in res]
            sizes = get("size %d" % k)
            rec.check(all(type(x) is int for x in sizes) and sum(sizes) == k and max(sizes) - min(sizes) <= 1, "partial sizes",
                      lambda: "%d over %d processes: %r" % (k, n, sizes))
            for kind in KINDS:
                s = list(seq(kind, k))
                parts = get((kind, k))
                what = lambda: "%s of %d over %d processes: %r" % (kind, k, n, [p[1] for p in parts])
                rec.check(all(p[2] for p in parts), "sequence changed", what)
                rec.check(sum([p[1] for p in parts], []) == s, "parts", what)
                lens = [len(p[1]) for p in parts]
                rec.check(max(lens) - min(lens) <= 1, "sizes differ", what)
                for r, x in enumerate(get(("merge", kind, k))):
                    rec.check(list(x) == s, "merged", lambda: "%s; merged on process %d: %r" % (what(), r, x))
                rec.state((n, k, kind))
                rec.step(3 * n)
            for r, x in enumerate(get(("uneven", k))):
                rec.check(list(x) == [(q, i) for q in range(n) for i in range((k + q) % 4)], "merged", lambda: "process %d of %d: %r" % (r, n, x))
            rec.check(get(("bcast", k)) == [["from", 0, k]] * n, "broadcast", lambda: repr(get(("bcast", k))))
            rec.outcome((n, tuple(sizes)))
    procs.explore(n, program, (c["lo"], c["hi"]), lambda: base, judge, rec, (n, c["lo"]))
    rec.sample(c)
