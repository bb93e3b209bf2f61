"""C24: start-up and archiving of several processes."""
import logging
import os
import pickle
from .. import ref, build, steady, procs, env

PROPERTY = "C24"
TECHNIQUE = ("stateless model checking of the real code in real processes: every interleaving of the file-system and "
             "communicator "
             "operations of 1-4 processes is executed under a controlled scheduler, with dynamic partial-order reduction")
RULE = "a state is what every process has done and observed so far; a transition one visible operation"
ASSUMPTIONS = ["the communicator has the weakest semantics MPI allows (roots of broadcasts do not wait)",
               "all processes share one working directory with sequentially consistent operations",
               "between two visible operations a process touches nothing shared"]
CASE_LIMIT = 800

MANY = [5, 8, 9, 10, 11, 12, 16, 20, 32, 64, 101, 128]
PROGRAMS = ["construct", "archive", "archive2", "two models", "run"]
DIRS = {"empty": [], "log": ["log"], "data": ["data"], "both": ["log", "data"]}


def bounds(tier):
    return dict(processes=[1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 6], programs=PROGRAMS, directories_present=DIRS, stale_files=[False, True],
                process_counts_one_after_another=MANY if tier == "quick" else "5-64, 101, 128, 257, 600, 1001",
                skewed_ranks="a process may start arbitrarily later than the others")


def cases(tier):
    out = []
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for prog in PROGRAMS:
            for d in sorted(DIRS):
                for stale in (False, True):
                    if stale and d != "both":
                        continue
                    out.append(dict(n=n, program=prog, dirs=d, stale=stale))
    out.sort(key=lambda c: -c["n"])
    for n in MANY if tier == "quick" else sorted(set(MANY + list(range(5, 65)) + [257, 600, 1001])):
        out.append(dict(n=n, program="archive", dirs="empty", stale=False, turn=True))
    return out


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.solvers.steady_state_solver, scipy.integrate, scipy.optimize, mpmath, sympy


def program(rank, size, kind):
    """What a process of the run does."""
    mech = ref.Mech(steady.MECHS["ads"])
    opt = dict(energies=steady.energies("moderate", 1), archived_variables=["rates", "tofs", "steady_state_coverages"],
               tolerance=1e-8)
    m = build.mkm(mech, **opt)
    marks = []

    def mark(m, i):
        m.logger.warning("this is process %d, model %d of it" % (rank, i))
        marks.append("this is process %d, model %d of it" % (rank, i))
    mark(m, 1)
    names = [m.data_file]
    if kind == "archive":
        m.solver.archive_data("rates", ("rank", rank))
    elif kind == "archive2":
        m.solver.archive_data("rates", ("rank", rank))
        m.solver.archive_data("tofs", ["x"] * rank)
    elif kind == "two models":
        m.solver.archive_data("rates", ("rank", rank))
        env.close_handlers()
        m2 = build.mkm(mech, **opt)
        mark(m2, 2)
        m2.solver.archive_data("tofs", ["second", rank])
    elif kind == "run":
        m.run(init_cvgs=[0.3 + 0.1 * rank], coarse_guess=False)
    for h in m.logger.handlers:
        h.flush()
    return names, marks, [float(x) for x in m.steady_state_coverages] if kind == "run" else None


def run_case(c, rec):
    n = c["n"]
    base = os.getcwd()
    k = [0]
    dirs = [] if n == 1 else DIRS[c["dirs"]]

    def prepare():
        import shutil
        if k[0]:
            shutil.rmtree(os.path.join(base, "r%d" % k[0]), ignore_errors=True)
        k[0] += 1
        d = os.path.join(base, "r%d" % k[0])
        os.mkdir(d)
        for x in dirs:
            os.mkdir(os.path.join(d, x))
        if c["stale"]:
            for r in range(n):
                with open(os.path.join(d, "data/data_%d.pkl" % r) if n > 1 else os.path.join(d, "data.pkl"), "wb") as f:
                    pickle.dump({"old": r}, f)
        return d

    def judge(outcome, files, schedule):
        txt = lambda: "%d processes, %r, directories present %r\nschedule (process, operation):\n  %s" % (
            n, c["program"], dirs, "\n  ".join("%d %s" % (r, " ".join(map(str, o))) for r, o in schedule))
        rec.check(not isinstance(outcome, str), "waits forever", lambda: "%s\n%s" % (outcome, txt()))
        own_data, own_log = {}, {}
        for r, (kind, value) in enumerate(outcome):
            rec.check(kind == "done", "a process failed", lambda: "process %d\n%s\n%s" % (r, value, txt()))
            names, marks, cvgs = value
            for x in names:
                p = os.path.normpath(x)
                rec.check(p not in own_data, "shared data file", lambda: "%s is the data file of processes %r\n%s" % (p, (own_data.get(p), r), txt()))
                own_data[p] = r
            want = {"construct": None, "archive": {"rates": ("rank", r)},
                    "archive2": {"rates": ("rank", r), "tofs": ["x"] * r}, "two models": {"tofs": ["second", r]}, "run": "run"}[c["program"]]
            p = os.path.normpath(names[0])
            if want is None:
                want = {"old": r} if c["stale"] else None
                rec.check((files.get(p) is None) == (want is None), "data file", txt)
            if want is not None:
                rec.check(p in files, "no data file", lambda: "process %d has no data file %s\n%s" % (r, p, txt()))
                got = pickle.loads(files[p])
                if want == "run":
                    rec.check(set(got) == {"rates", "tofs", "steady_state_coverages"} and [float(x) for x in got["steady_state_coverages"]] == cvgs,
                              "data of another process", lambda: "process %d: %s contains %r\n%s" % (r, p, got, txt()))
                else:
                    rec.check(got == want, "data of another process", lambda: "process %d: %s contains %r, archived was %r\n%s" % (r, p, got, want, txt()))
            logs = [q for q, v in files.items() if v != "dir" and marks[0].encode() in v]
            rec.check(len(logs) == 1, "log file", lambda: "process %d logs to %r\n%s" % (r, logs, txt()))
            rec.check(logs[0] not in own_log, "shared log file", lambda: "%r logs for processes %r\n%s" % (logs[0], (own_log.get(logs[0]), r), txt()))
            own_log[logs[0]] = r
            for mk in marks:
                rec.check(files[logs[0]].count(mk.encode()) == 1, "log lines", lambda: "process %d: %r occurs %d times in %s\n%s" % (r, mk, files[logs[0]].count(mk.encode()), logs[0], txt()))
        rec.outcome(sorted((p, "dir" if v == "dir" else len(v)) for p, v in files.items()))
    if c.get("turn"):
        # large runs: the processes one after another, the names they choose
        class Turn(env.Comm):
            def __init__(self, r):
                self.r = r

            def Get_rank(self):
                return self.r

            def Get_size(self):
                return n
        d = prepare()
        os.chdir(d)
        outcome, logs_on = [], logging.root.manager.disable
        logging.disable(logging.NOTSET)
        try:
            for r in range(n):
                env.install_comm(Turn(r))
                outcome.append(("done", program(r, n, c["program"])))
                rec.state(("turn", n, r))
                rec.step(1)
                env.close_handlers()
        finally:
            env.install_comm(env.Comm())
            logging.disable(logs_on)
        judge(outcome, procs.snapshot(d), [])
        rec.trace(1)
        os.chdir(base)
        return
    nruns = procs.explore(n, program, (c["program"],), prepare, judge, rec, (n, c["program"], c["dirs"], c["stale"]))
    os.chdir(base)
    rec.sample(dict(c, schedules=nruns))
