"""Several real processes under a controlled scheduler.

Every process of a simulated MPI run is a forked child.  It stops before every
visible operation (file-system operation inside the scratch directory, call of
the communicator) and goes on only when the scheduler lets it; what lies between
two visible operations touches nothing shared.  explore() runs the program under
every interleaving that differs in the order of dependent operations, by
depth-first search with re-execution.

The communicator has the weakest semantics MPI allows: the root of a broadcast
and the non-roots of a gather do not wait."""
import os
import pickle
import signal
import struct
import sys
import traceback

from .core import digest, InfraError


class Deadlock(Exception):
    pass


# ---------------------------------------------------------------- child side
def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out
    return pickle.loads(get(struct.unpack("<I", get(4))[0]))


class ProcComm(object):
    def __init__(self, rank, size, out, inp):
        self.r, self.n, self.out, self.inp = rank, size, out, inp

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.n
    rank = property(Get_rank)
    size = property(Get_size)

    def _coll(self, kind, root, data):
        _send(self.out, ("coll", kind, root, pickle.dumps(data)))
        return pickle.loads(_recv(self.inp))

    def barrier(self):
        self._coll("barrier", 0, None)
    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return self._coll("bcast", root, obj)

    def gather(self, sendobj, root=0):
        return self._coll("gather", root, sendobj)

    def allgather(self, sendobj):
        return self._coll("allgather", 0, sendobj)

    def scatter(self, sendobj=None, root=0):
        return self._coll("scatter", root, sendobj)

    def allreduce(self, sendobj, op=None):
        v = self._coll("allgather", 0, sendobj)
        s = v[0]
        for x in v[1:]:
            s = op(s, x) if op else s + x
        return s


def _child(rank, size, program, args, cwd, out, inp):
    os.chdir(cwd)
    from . import env
    env.install_comm(ProcComm(rank, size, out, inp))
    busy = [False]

    def gate(kind, paths, *more):
        if busy[0]:
            return
        inside = []
        for path in paths:
            if not isinstance(path, (str, bytes)):
                continue
            p = os.path.abspath(os.fsdecode(path))
            if p == cwd or p.startswith(cwd + os.sep):
                inside.append(os.path.relpath(p, cwd))
        if not inside:
            return
        busy[0] = True
        try:
            _send(out, ("op", kind, tuple(inside)) + more)
            _recv(inp)
        finally:
            busy[0] = False

    def hook(event, a):
        if event == "open":
            gate("open", a[:1], a[2])
        elif event in ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.listdir", "os.scandir", "os.truncate", "os.link", "os.symlink"):
            gate(event, a[:2] if event in ("os.rename", "os.link", "os.symlink") else a[:1])
    sys.addaudithook(hook)
    for name in ("stat", "lstat", "access"):
        real = getattr(os, name)

        def wrapped(path, *a, _real=real, _name=name, **k):
            if not isinstance(path, int):
                try:
                    gate(_name, (os.fspath(path),))
                except TypeError:
                    pass
            return _real(path, *a, **k)
        setattr(os, name, wrapped)
    import logging
    logging.disable(logging.NOTSET)
    try:
        r = ("done", program(rank, size, *args))
    except BaseException:
        r = ("raised", traceback.format_exc())
    busy[0] = True
    _send(out, r)


# ------------------------------------------------------------ scheduler side
def snapshot(d):
    """What is in a directory: path -> digest of the content."""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = "dir"
        for x in files:
            p = os.path.join(root, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


class World(object):
    """One run."""

    def __init__(self, size, program, args, cwd):
        self.size, self.cwd = size, cwd
        self.pids, self.inp, self.out = [], [], []
        sys.stdout.flush()
        for r in range(size):
            a, b = os.pipe()
            c, d = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    os.close(a)
                    os.close(d)
                    for fd in self.inp + self.out:
                        os.close(fd)
                    _child(r, size, program, args, cwd, b, c)
                except BaseException:
                    pass
                os._exit(0)
            os.close(b)
            os.close(c)
            self.pids.append(pid)
            self.inp.append(a)
            self.out.append(d)
        self.pending = [None] * size      # the operation a process is stopped at
        self.history = [[] for _ in range(size)]
        self.colls = []                   # per communicator call: {rank: (kind, root, data)}
        self.ncoll = [0] * size
        self.arrival = []                 # per communicator call: {rank: clock}
        self.results = [None] * size
        self.clocks = [[0] * size for _ in range(size)]
        for r in range(size):
            self._next(r)

    def close(self):
        for p in self.pids:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for p in self.pids:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
        for fd in self.inp + self.out:
            os.close(fd)

    def _next(self, r):
        """Wait for the next request of process r."""
        while True:
            try:
                m = _recv(self.inp[r])
            except EOFError:
                raise InfraError("process %d ended without a word" % r)
            if m[0] == "op":
                self.pending[r] = m
                return
            if m[0] == "coll":
                self.pending[r] = m
                i = self.ncoll[r]
                self.ncoll[r] += 1
                if len(self.colls) <= i:
                    self.colls.append({})
                    self.arrival.append({})
                self.colls[i][r] = m
                self.arrival[i][r] = list(self.clocks[r])
                kinds = {(x[1], x[2]) for x in self.colls[i].values()}
                if len(kinds) > 1:
                    raise Deadlock("processes call different collectives: %r" % {k: v[1:3] for k, v in self.colls[i].items()})
                if self._try_release(r, i):
                    self.pending[r] = None
                    continue
                return
            self.results[r] = m
            self.pending[r] = None
            return

    def _reply(self, r, i):
        c = self.colls[i]
        kind, root = c[r][1], c[r][2]
        data = lambda k: pickle.loads(c[k][3])
        if kind == "barrier":
            v = None
        elif kind == "bcast":
            v = data(root)
        elif kind == "allgather":
            v = [data(k) for k in range(self.size)]
        elif kind == "gather":
            v = [data(k) for k in range(self.size)] if r == root else None
        elif kind == "scatter":
            v = data(root)[r]
        self.history[r].append((kind, digest(pickle.dumps(v))))
        _send(self.out[r], pickle.dumps(v))

    def _can_release(self, r, i):
        c = self.colls[i]
        kind, root = c[r][1], c[r][2]
        if kind in ("bcast", "scatter"):
            return root in c
        if kind == "gather" and r != root:
            return True
        return len(c) == self.size

    def _try_release(self, r, i):
        if self._can_release(r, i):
            # whoever takes part in the call comes before its end
            if self.colls[i][r][1] in ("bcast", "scatter"):
                before = [self.arrival[i][self.colls[i][r][2]]]
            elif self.colls[i][r][1] == "gather" and r != self.colls[i][r][2]:
                before = []
            else:
                before = list(self.arrival[i].values())
            for cl in before:
                self.clocks[r] = [max(x, y) for x, y in zip(self.clocks[r], cl)]
            self._reply(r, i)
            return True
        return False

    def settle(self):
        """Let every process pass the collectives it can pass."""
        again = True
        while again:
            again = False
            for r in range(self.size):
                p = self.pending[r]
                if p and p[0] == "coll" and self._try_release(r, self.ncoll[r] - 1):
                    self.pending[r] = None
                    self._next(r)
                    again = True

    def enabled(self):
        return [r for r in range(self.size) if self.pending[r] and self.pending[r][0] == "op"]

    def finished(self):
        return all(x is not None for x in self.results)

    def go(self, r):
        p = self.pending[r]
        self.history[r].append(p)
        self.pending[r] = None
        _send(self.out[r], None)
        self._next(r)


WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _effect(op):
    """(paths, does it change them, does it concern what lies below them)"""
    kind, paths, more = op[1], op[2], op[3:]
    if kind == "open":
        return paths, bool(more[0] & WRITE), False
    if kind in ("stat", "lstat", "access"):
        return paths, False, False
    if kind in ("os.listdir", "os.scandir"):
        return paths, False, True
    return paths, True, True


def dependent(a, b):
    (pa, wa, da), (pb, wb, db) = _effect(a), _effect(b)
    for x in pa:
        for y in pb:
            if x == y and (wa or wb):
                return True
            if da and (y.startswith(x + os.sep) or x == ".") and (wa or wb):
                return True
            if db and (x.startswith(y + os.sep) or y == ".") and (wa or wb):
                return True
    return False


def join(a, b):
    return [max(x, y) for x, y in zip(a, b)]


def after(trans, r, op, clock):
    """The clock of process r once it has done op."""
    for q, o, cl in trans:
        if dependent(o, op):
            clock = join(clock, cl)
    return list(clock)


def races(trans, r, op, clock):
    """The operations of others that op of process r, coming next, depends on
    without anything else ordering the two."""
    for i in range(len(trans) - 1, -1, -1):
        q, o, cl = trans[i]
        if q != r and dependent(o, op) and clock[q] < cl[q]:
            yield i
        if dependent(o, op):
            clock = join(clock, cl)


def initials(trans, i, r, op, clock):
    """The processes that can go first if what does not come after operation i,
    and then op of r, is to be done before operation i."""
    q, _, cl = trans[i]
    first, passed = set(), []
    for p, _, c in [t for t in trans[i + 1:] if t[2][q] < cl[q]] + [(r, op, after(trans, r, op, clock))]:
        if not any(c[x] >= n for x, n in passed):
            first.add(p)
        passed.append((p, c[p]))
    return first


class Node(object):
    def __init__(self, enabled, sleep):
        self.enabled, self.backtrack, self.done, self.chosen, self.sleep = enabled, set(), set(), None, sleep


def explore(size, program, args, prepare, judge, rec, label, limit=20000):
    """Runs the program under every interleaving up to the order of independent
    operations (dynamic partial-order reduction with sleep sets).  prepare()
    makes a fresh directory and returns it; judge(results, snapshot, schedule)
    checks an end state; for a deadlock results is a string describing it."""
    nodes, nruns = [], 0
    while True:
        cwd = prepare()
        nruns += 1
        if nruns > limit:
            raise InfraError("more than %d interleavings of %r" % (limit, label))
        w = World(size, program, args, cwd)
        trans = []                     # (process, operation, its clock)
        clocks = w.clocks              # process -> vector, joined by collectives
        asleep = False
        try:
            try:
                w.settle()
                while True:
                    en = w.enabled()
                    if not en:
                        break
                    d = len(trans)
                    if d == len(nodes):
                        sleep = {}
                        if d:
                            pq, pop, _ = trans[-1]
                            sleep = {p: o for p, o in nodes[-1].sleep.items() if p != pq and not dependent(o, pop)}
                        nodes.append(Node(en, sleep))
                        rec.state((label, [tuple(h) for h in w.history]))
                        awake = [p for p in en if p not in sleep]
                        if not awake:
                            asleep = True
                            break
                        nodes[d].chosen = awake[0]
                        nodes[d].backtrack.add(awake[0])
                    n = nodes[d]
                    r = n.chosen
                    n.op = w.pending[r]
                    for i in races(trans, r, w.pending[r], clocks[r]):
                        first = initials(trans, i, r, w.pending[r], clocks[r])
                        if not first & nodes[i].backtrack:
                            nodes[i].backtrack |= set(sorted(first & set(nodes[i].enabled))[:1]) or set(nodes[i].enabled)
                    clocks[r] = after(trans, r, w.pending[r], clocks[r])
                    clocks[r][r] = d + 1
                    trans.append((r, w.pending[r], list(clocks[r])))
                    rec.step()
                    w.go(r)
                    w.settle()
                if asleep:
                    rec.count("cut as equivalent")
                    outcome = None
                else:
                    if not w.finished():
                        waiting = {r: w.pending[r][1] for r in range(size) if w.pending[r]}
                        raise Deadlock("waiting forever: %r" % waiting)
                    outcome = w.results
            except Deadlock as e:
                outcome = str(e)
            if outcome is not None:
                rec.trace()
                judge(outcome, snapshot(cwd), [(r, (o[1],) + o[2]) for r, o, _ in trans])
        finally:
            w.close()
        # the next unexplored alternative, deepest first
        while nodes:
            n = nodes[-1]
            if n.chosen is not None:
                n.done.add(n.chosen)
                n.sleep[n.chosen] = n.op
            todo = [p for p in sorted(n.backtrack) if p not in n.done and p not in n.sleep]
            if todo:
                n.chosen = todo[0]
                break
            nodes.pop()
        if not nodes:
            break
    rec.count("schedules", nruns)
    return nruns
