"""C43: the log."""
import io
import itertools
import logging
import os
import sys
from .. import env, kin, kmc

PROPERTY = "C43"
TECHNIQUE = ("explicit-state exploration: all combinations of the three initial levels x all sequences of level changes, refused changes, clearings and new models up to a depth, for both "
             "kinds of model and as first and as further process; after every operation a message of every level is sent from the model and from a part of it, and what reached "
             "the console and the log file is compared with the reference levels")
RULE = "a state is (kind, process, levels of the logger, the file and the console); a transition one operation"
ASSUMPTIONS = ["logger_level 0 is left out: it means 'as the surrounding program has it'", "one model at a time, or a new one after the handlers of the old were cleared",
               "of a micro-kinetic model on several processes only the first writes INFO and below to the console"]
LEVELS = [0, 10, 20, 30, 40, 50]
MESSAGES = [5, 10, 20, 25, 30, 40, 50]
OPS = ([("FileHandler", l) for l in (0, 10, 30, 50)] + [("StreamHandler", l) for l in (0, 20, 40)] + [("Filehandler", 10), ("", 10), ("clear",), ("again",)])


def bounds(tier):
    return dict(levels=LEVELS, messages=MESSAGES, operations=len(OPS), depth=depth(tier), depth_from_all_levels=1, kinds=["MicroKineticModel", "KMCModel"], processes=["one", "first of two", "second of two"])


def depth(tier):
    return 3 if tier == "quick" else 4


def cases(tier):
    full = [dict(k=k, p=p, start=[l, f, c], depth=1) for k in (0, 1) for p in (0, 1, 2) for l in LEVELS[1:] for f in LEVELS for c in LEVELS]
    out = [dict(group=full[i:i + 20]) for i in range(0, len(full), 20)]
    deep = [dict(k=k, p=p, start=s, depth=depth(tier)) for k in (0, 1) for p in (0, 1, 2) for s in ([10, 10, 10], [20, 0, 40], [30, 20, 0], None)]
    return out + [dict(group=[dict(d, first=i)]) for d in deep for i in range(len(OPS))]


class Model(object):
    """The real model with the reference levels and what was captured so far."""
    def __init__(self, kind, proc, start, rec, what):
        self.kind, self.proc, self.start = kind, proc, start
        self.file = "out.log" if kind else ["out.log", "./log/out_0.log", "./log/out_1.log"][proc]
        self.err = io.StringIO()
        self.new(rec, what)

    def new(self, rec, what):
        from scaks.models.kmc_model import KMCModel
        from scaks.models.micro_kinetic_model import MicroKineticModel
        kw = {} if self.start is None else dict(zip(("logger_level", "file_handler_level", "console_handler_level"), self.start))
        self.levels = dict(zip(("logger", "FileHandler", "StreamHandler"), self.start or [20, 10, 20]))
        if self.kind == 0 and self.proc == 2:
            self.levels["StreamHandler"] = max(self.levels["StreamHandler"], 30)
        old, sys.stderr = sys.stderr, self.err
        try:
            if self.kind:
                self.m = KMCModel(setup_dict=kmc.setup_dict(), **kw)
            else:
                d = dict(rxn_expressions=["CO_g + *_s -> CO_s"], species_definitions={"CO_g": {"pressure": 1.0}, "*_s": {"site_name": "s", "type": "site", "total": 1.0}}, parser="RelativeEnergyParser",
                         solver="SteadyStateSolver", corrector="ThermodynamicCorrector", plotter="EnergyProfilePlotter")
                self.m = MicroKineticModel(setup_dict=d, **kw)
        finally:
            sys.stderr = old

    def logs(self):
        for h in logging.getLogger("model").handlers:
            h.flush()
        return (open(self.file).read() if os.path.exists(self.file) else ""), self.err.getvalue()

    def probe(self, rec, what):
        """Sends a message of every level from the model and from a part of it."""
        before = self.logs()
        for name in ("model", "model.solvers.SomeSolver"):
            for l in MESSAGES:
                logging.getLogger(name).log(l, "probe %s %d", name, l)
        after = self.logs()
        for which, b, a in zip(("FileHandler", "StreamHandler"), before, after):
            rec.check(a.startswith(b), "earlier messages lost", lambda: "%s: %s" % (what(), which))
            got = [x.split("probe ")[1] for x in a[len(b):].split("\n") if "probe " in x]
            want = [] if self.levels is None else ["%s %d" % (n, l) for n in ("model", "model.solvers.SomeSolver") for l in MESSAGES if l >= max(self.levels["logger"], self.levels[which])]
            rec.check(got == want, "messages at the " + which, lambda: "%s: levels %r, got %r, expected %r" % (what(), self.levels, got, want))


def apply(m, op, rec, what):
    rec.step()
    if op[0] == "clear":
        m.m.clear_handlers()
        m.levels = None
    elif op[0] == "again":
        m.m.clear_handlers()
        m.new(rec, what)
    else:
        known = m.levels is not None and op[0] in ("FileHandler", "StreamHandler")
        try:
            old = m.m.set_logger_level(*op)
        except Exception as e:
            rec.check(not known, "level refused", lambda: "%s: %r" % (what(), e))
        else:
            rec.check(known, "unknown handler accepted", what)
            rec.check(old == m.levels[op[0]], "former level", lambda: "%s: %r, expected %r" % (what(), old, m.levels[op[0]]))
            m.levels[op[0]] = op[1]


def communicator(proc):
    M = sys.modules["mpi4py.MPI"]
    old = M.COMM_WORLD

    class Comm(type(old)):
        def Get_rank(self):
            return 1 if proc == 2 else 0

        def Get_size(self):
            return 2 if proc else 1
    M.COMM_WORLD = Comm()
    return old


def run_case(c, rec):
    for d in c["group"]:
        rec.sample(d)
        old = communicator(d["p"])
        disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        try:
            stack = [(d["first"],)] if "first" in d else [()] + [(i,) for i in range(len(OPS))]
            while stack:
                path = stack.pop()
                env.close_handlers()
                for f in ("out.log", "./log/out_0.log", "./log/out_1.log"):
                    if os.path.exists(f):
                        os.remove(f)
                if d["p"] == 2:
                    for x in ("log", "data"):           # made by the first process
                        if not os.path.isdir(x):
                            os.mkdir(x)
                what = lambda: "%s, %s, levels (logger, file, console) %r, operations %r" % (["MicroKineticModel", "KMCModel"][d["k"]], ["single process", "first of two", "second of two"][d["p"]],
                                                                                             d["start"] or "by default", [OPS[i] for i in path])
                m = Model(d["k"], d["p"], d["start"], rec, what)
                if not path or len(path) == 1:
                    m.probe(rec, what)
                for i in path:
                    apply(m, OPS[i], rec, what)
                m.probe(rec, what)
                rec.trace()
                rec.state((d["k"], d["p"], repr(m.levels)))
                if len(path) < d["depth"]:
                    stack += [path + (i,) for i in range(len(OPS))] if "first" in d else []
        finally:
            logging.disable(disabled)
            sys.modules["mpi4py.MPI"].COMM_WORLD = old
