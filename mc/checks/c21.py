"""C21: a crash never destroys archived results."""
import os
import pickle
from .. import ref, build, steady, env, core, crash
from .c18 import canon

PROPERTY = "C21"
TECHNIQUE = ("exhaustive crash-point exploration of the real code: every file-system operation, and every byte of every write to a data "
             "file, is a point at which the process is ended; the directories left behind are explored further (crash, restart, crash again)")
RULE = "a state is the content of the working directory; a transition one (history, crash point)"
ASSUMPTIONS = ["the process dies, the operating system survives: completed operations persist, buffered data of the process is lost",
               "log files do not belong to the results (nothing reads them); writes to them are crash points as a whole only",
               "results count as archived when archive_data returns"]
CASE_LIMIT = 850
CRASH = True

SMALL1, SMALL2 = ((1.5, 2.25), (0.125,)), ((7.0, 8.0), (9.0,))
PROGRAMS = {
    "one": dict(ops=[["rates", SMALL1]]),
    "three": dict(ops=[["rates", SMALL1], ["tofs", "mp"], ["rates", SMALL2]]),
    "not requested": dict(ops=[["net_rates", SMALL1], ["tofs", SMALL2], ["reversibilities", SMALL1]]),
    "big": dict(ops=[["rates", "big"], ["tofs", SMALL1]]),
    "two models": dict(ops=[["rates", SMALL1], "new", ["tofs", SMALL2], ["rates", SMALL2]]),
    "other": dict(ops=[["tofs", ["a", {"b": None}]], ["rates", SMALL2]]),
    "nothing": dict(ops=[]),
    "run": dict(run=True),
}
WORLDS = {"alone": (0, 1), "master": (0, 2), "second": (1, 2)}


def bounds(tier):
    q = tier == "quick"
    return dict(programs=PROGRAMS, processes=WORLDS, crash_points="every mutating operation below the working directory; writes to data files after every number of bytes"
                " (a write of more than 2000 bytes%s: at its ends, around its middle and every 256 bytes)" % (", and in a full run or a second program every write" if q else ""),
                crashes_in_a_row=2 if q else 3, restart="a full run from every distinct directory left behind")


def cases(tier):
    out = []
    for w in sorted(WORLDS):
        for p in sorted(PROGRAMS):
            n = 8 if p == "run" else 4 if p in ("big", "three", "two models") else 2
            for i in range(n):
                out.append(dict(world=w, program=p, shard=[i, n], tier=tier))
    out.sort(key=lambda c: (c["program"] != "run", c["program"] != "big"))
    return out


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.solvers.steady_state_solver, scipy.integrate, scipy.optimize, mpmath, sympy
    crash.load()


class Comm(env.Comm):
    def __init__(self, rank, size):
        self.r, self.n = rank, size

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.n

    def allgather(self, x):
        return [x] * self.n


MECH = ref.Mech(steady.MECHS["ads"])
ARCHIVED = ["rates", "tofs", "steady_state_coverages", "steady_state_error", "initial_guess"]


def value(v):
    if v == "mp":
        import mpmath
        return [mpmath.mpf(1) / 3, mpmath.mpf(2) ** 70]
    if v == "big":
        return [i / 7.0 for i in range(2500)]
    return eval(repr(v)) if not isinstance(v, list) else [value(x) if isinstance(x, list) else x for x in v]


def model():
    return build.mkm(MECH, energies=steady.energies("moderate", 1), archived_variables=list(ARCHIVED), tolerance=1e-8)


def program(spec):
    def go(tell):
        from scaks import ModelShell
        real = ModelShell.archive_data
        have = {}

        def archive_data(self, data_name, data):
            mine = have.setdefault(id(self), {})
            if data_name in ARCHIVED and self._archive_allowed:
                mine[data_name] = canon(data)
                tell(("start", dict(mine)))
                real(self, data_name, data)
                tell(("done", dict(mine)))
            else:
                real(self, data_name, data)
        m = model()
        ModelShell.archive_data = archive_data
        if spec.get("run"):
            m.run(coarse_guess=False)
            tell(("cvgs", m.steady_state_coverages))
            return
        for op in spec["ops"]:
            if op == "new":
                m = model()
            else:
                m.solver.archive_data(op[0], value(op[1]))
    return go


def is_log(rel):
    b = os.path.basename(rel.rstrip("/"))
    return b.endswith(".log") or b.startswith("auto_")


class Explorer(object):
    def __init__(self, rec, c):
        self.rec, self.c = rec, c
        self.rank, self.size = WORLDS[c["world"]]
        self.file = "data.pkl" if self.size == 1 else "data/data_%d.pkl" % self.rank
        self.dir = os.path.join(os.getcwd(), "work")
        self.recovered = set()
        env.install_comm(Comm(self.rank, self.size))

    def key(self, snap):
        return core.digest(sorted(snap.items()))

    def snapshot(self):
        return crash.snapshot(self.dir, is_log)

    def content(self, snap, what):
        """The archived results in a directory, as data."""
        if self.file not in snap:
            return None
        try:
            data = pickle.loads(snap[self.file])
            return {k: canon(v) for k, v in data.items()}
        except Exception as e:
            self.rec.fail("unreadable", "%s: the data file does not load (%s: %s)" % (what, type(e).__name__, e))

    def points(self, ops, full):
        """(operation, bytes) at which to die"""
        out = []
        for i, (op, path, n) in enumerate(ops):
            if op != "write" or is_log(path):
                out.append((i, 0))
            elif full and n <= 2000:
                out += [(i, k) for k in range(n + 1)]
            else:
                ks = {0, 1, n // 2, n - 1, n}
                if full:
                    ks |= set(range(0, 40)) | set(range(n - 40, n)) | set(range(n // 2 - 20, n // 2 + 20)) | set(range(0, n, 256))
                out += [(i, k) for k in sorted(ks) if 0 <= k <= n]
        return out

    def judge(self, what, before, msgs):
        """The directory after a program ended somehow; returns (snapshot, content)."""
        snap = self.snapshot()
        allowed = [before]
        for m in msgs:
            if m[0] == "start":
                allowed.append(m[1])
            elif m[0] == "done":
                allowed = [m[1]]
        now = self.content(snap, what)
        self.rec.check(now in allowed, "lost" if now is None else "incomplete",
                       lambda: "%s: the data file %s; archived so far: %s" % (
                           what, "is missing" if now is None else "holds %s" % brief(now), " or ".join(brief(x) for x in allowed)))
        self.rec.state(sorted(snap.items()))
        return snap, now

    def recover(self, what, snap):
        """The next run in that directory."""
        k = self.key(snap)
        if k in self.recovered:
            return
        self.recovered.add(k)
        crash.restore(self.dir, snap)
        how, msgs, _ = crash.run(self.dir, program(dict(run=True)), arm=False)
        self.rec.check(how == "end", "next run", lambda: "%s: the next run in that directory failed: %s" % (what, msgs[-1][1:] if msgs else how))
        th = [m for m in msgs if m[0] == "cvgs"][0][1]
        self.rec.check(th is not None, "next run", lambda: "%s: the next run found no steady state" % what)
        steady.judge(self.rec, what + ": next run", MECH, 450.0, steady.rel("moderate", 1), {}, {}, th, 1e-8)
        self.judge(what + ": after the next run", None, msgs)
        self.rec.count("restarts")

    def explore(self, start, content, names, history, shard=None, full=True):
        """All crash points of these programs from one directory; returns the distinct directories left."""
        left = {}
        for name in names:
            spec = PROGRAMS[name]
            crash.restore(self.dir, start)
            how, msgs, ops = crash.run(self.dir, program(spec))
            what = "%s, then %r" % (history, name)
            self.rec.check(how == "end", "program failed", lambda: "%s: %s" % (what, msgs[-1][1:]))
            snap, now = self.judge(what, content, msgs)
            if now != content and not any(o[0] == "write" for o in ops):
                raise core.InfraError("the fault injector sees no writes")
            left.setdefault(self.key(snap), (snap, now, what))
            pts = self.points(ops, full)
            for j, (i, k) in enumerate(pts):
                if shard and j % shard[1] != shard[0]:
                    continue
                crash.restore(self.dir, start)
                how, msgs, _ = crash.run(self.dir, program(spec), i, k)
                here = "%s, ended at operation %d (%s %s)%s" % (
                    what, i, ops[i][0], os.path.relpath(ops[i][1], self.dir) if ops[i][1].startswith("/") else ops[i][1],
                    " after %d of %d bytes" % (k, ops[i][2]) if ops[i][0] == "write" else "")
                if how == "error":
                    self.rec.fail("program failed", "%s: %s" % (here, msgs[-1][1:]))
                if how == "end":
                    raise core.InfraError("%s: did not reach the crash point" % here)
                self.rec.step()
                self.rec.trace()
                snap, now = self.judge(here, content, msgs)
                self.rec.outcome((sorted(snap), now))
                left.setdefault(self.key(snap), (snap, now, here))
        return left


def brief(x):
    return repr(x)[:200]


def run_case(c, rec):
    os.mkdir("work")
    x = Explorer(rec, c)
    start = {}
    if x.rank:
        start = {"log/": b"", "data/": b""}
    quick = c["tier"] == "quick"
    full = not (quick and c["program"] == "run")
    level = x.explore(start, None, [c["program"]], "empty directory", c["shard"], full)
    for snap, now, what in level.values():
        x.recover(what, snap)
    rec.count("directories after one crash", len(level))
    for depth in (2,) if quick else (2, 3):
        nxt = {}
        for snap, now, what in thin(level, quick, depth):
            nxt.update(x.explore(snap, now, ["other", "not requested"] if quick or depth == 3 else ["other", "not requested", "run"], what, full=False))
        for k, (snap, now, what) in nxt.items():
            x.recover(what, snap)
        rec.count("directories after %d crashes" % depth, len(nxt))
        level = nxt
    rec.sample(dict(c, operations=len(level)))


def thin(level, quick, depth):
    """Quick: of the directories that differ in a partial temporary file only, those with the shortest, a middle and the longest one."""
    groups = {}
    for v in level.values():
        groups.setdefault((repr(v[1]), tuple(sorted(v[0]))), []).append(v)
    for g in groups.values():
        g.sort(key=lambda v: sum(map(len, v[0].values())))
        n = 3 if quick else 6 if depth == 2 else 2
        yield from (g if len(g) <= n else [g[i * (len(g) - 1) // (n - 1)] for i in range(n)])
