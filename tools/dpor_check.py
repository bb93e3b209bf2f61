"""The reduction loses nothing: toy programs under every interleaving, and under
the reduced exploration; the end states must be the same."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import procs
from mc.core import Recorder


def mkdirs(r, n):
    got = []
    for d in ("a", "b"):
        if not os.path.exists(d):
            got.append(d)
            try:
                os.mkdir(d)
            except OSError:
                got.append("!")
    return got


def order(r, n):
    open("f%d" % r, "w").close()
    return sorted(os.listdir("."))


def rename(r, n):
    open("x", "w").close()
    try:
        os.rename("x", "y%d" % r)
        return "moved"
    except OSError:
        return "gone"


def lastwins(r, n):
    with open("v", "w") as f:
        f.write(str(r))
    with open("v") as f:
        return f.read()


def private(r, n):
    for i in range(3):
        open("p%d-%d" % (r, i), "w").close()
    return os.path.exists("p%d-0" % (1 - r) if n == 2 else "p0-0")


def coll(r, n):
    from mpi4py import MPI
    c = MPI.COMM_WORLD
    seen = os.path.exists("z")
    x = c.bcast(r + 7, root=0)
    if r == 0:
        open("z", "w").close()
    later = os.path.exists("z")
    c.gather(r, root=0)
    return seen, x, later, os.path.exists("z")


def barrier(r, n):
    from mpi4py import MPI
    a = os.path.exists("q")
    if r == 1:
        open("q", "w").close()
    MPI.COMM_WORLD.barrier()
    return a, os.path.exists("q")


def every(size, program, prepare, judge):
    """No reduction at all."""
    prefix, n = [], 0
    while True:
        w = procs.World(size, program, (), prepare())
        n += 1
        chosen, options = [], []
        try:
            w.settle()
            while True:
                en = w.enabled()
                if not en:
                    break
                d = len(chosen)
                r = prefix[d] if d < len(prefix) else en[0]
                chosen.append(r)
                options.append(en)
                w.go(r)
                w.settle()
            judge(w.results, procs.snapshot(w.cwd), None)
        finally:
            w.close()
        for d in range(len(chosen) - 1, -1, -1):
            later = [x for x in options[d] if x > chosen[d]]
            if later:
                prefix = chosen[:d] + [later[0]]
                break
        else:
            return n


class Sim(object):
    """A World of processes that only do the given operations."""

    def __init__(self, size, program, args, cwd):
        self.cwd, self.todo = cwd, [list(p) for p in program]
        self.size = size
        self.clocks, self.history = [[0] * size for _ in range(size)], [[] for _ in range(size)]
        self.results, self.state = [None] * size, {}
        self.pending = [p[0] if p else None for p in self.todo]

    def settle(self):
        pass

    def enabled(self):
        return [r for r in range(self.size) if self.todo[r]]

    def finished(self):
        return not self.enabled()

    def go(self, r):
        op = self.todo[r].pop(0)
        path = op[2][0]
        if op[1] == "os.listdir":
            seen = tuple(sorted(self.state.items()))
        else:
            seen = self.state.get(path)
            if op[1] == "os.mkdir":
                self.state[path] = (r, len(self.history[r]))
        self.history[r].append((op, seen))
        self.pending[r] = self.todo[r][0] if self.todo[r] else None

    def close(self):
        pass


OPS = [("op", "os.mkdir", ("x",)), ("op", "stat", ("x",)), ("op", "os.mkdir", ("y",)), ("op", "os.listdir", (".",))]


def simulated():
    """Every program of 2 processes with 3 operations, or 3 with 2."""
    import itertools
    real = procs.World, procs.snapshot
    n = 0
    for size, length in ((2, 3), (3, 2)):
        each = list(itertools.product(OPS, repeat=length))
        orders = sorted(set(itertools.permutations([r for r in range(size) for _ in range(length)])))
        for program in itertools.product(each, repeat=size):
            full = set()
            for order_ in orders:
                w = Sim(size, program, (), None)
                for r in order_:
                    w.go(r)
                full.add(repr((w.history, sorted(w.state.items()))))
            seen, last = set(), []

            def world(*a):
                last[:] = [Sim(*a)]
                return last[0]
            procs.World, procs.snapshot = world, lambda d: None
            try:
                procs.explore(size, program, (), lambda: None, lambda *a: seen.add(repr((last[0].history, sorted(last[0].state.items())))),
                              Recorder(set()), "sim")
            finally:
                procs.World, procs.snapshot = real
            n += 1
            if seen != full:
                print("simulated:", program, len(full), "end states,", len(seen), "reached")
                return 1
    print("simulated:", n, "programs, all end states reached")
    return 0


if __name__ == "__main__":
    top = tempfile.mkdtemp(prefix="scaks-mc-dpor-")
    from mc import env
    os.mkdir(os.path.join(top, "w"))
    env.setup(os.path.join(top, "w"))
    sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    bad, k = simulated(), [0]
    try:
        for size, program in [(2, mkdirs), (2, order), (3, order), (2, rename), (3, lastwins), (2, lastwins), (2, private), (2, coll), (3, coll), (2, barrier), (3, barrier)]:

            def prepare():
                if k[0]:
                    shutil.rmtree(os.path.join(top, str(k[0])))
                k[0] += 1
                d = os.path.join(top, str(k[0]))
                os.mkdir(d)
                return d
            res = []
            for how in ("all", "reduced"):
                ends = set()
                judge = lambda results, snap, sched: ends.add(repr((results, sorted(snap.items()))))
                if how == "all":
                    n = every(size, program, prepare, judge)
                else:
                    n = procs.explore(size, program, (), prepare, judge, Recorder(set()), program.__name__)
                res.append((n, ends))
            same = res[0][1] == res[1][1]
            bad += not same
            print(program.__name__, size, "processes:", res[0][0], "interleavings,", res[1][0], "explored,", len(res[0][1]), "end states", "same" if same else "DIFFERENT")
    finally:
        os.chdir("/")
        shutil.rmtree(top)
    sys.exit(bad)
