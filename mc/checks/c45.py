"""C45: what cannot be run is refused and leaves no trace."""
import itertools
import os
import pickle
import mpmath
from .. import ref, build, steady, core
from .c18 import canon

PROPERTY = "C45"
TECHNIQUE = ("explicit-state exploration of histories of real runs of one model in one directory: every sequence of usable and unusable runs "
             "(and of questions to the solver) up to a depth; after each the results of the model and the directory are compared with those of the "
             "last completed run, and the following usable runs with the mass-action reference")
RULE = "a state is (results of the model, content of the directory, what was refused); a transition one run or one refused request"
ASSUMPTIONS = ["coverages of an unusable start are those that are no list or tuple, have the wrong number of entries or entries that are no numbers",
               "an empty start means that none is given",
               "rate control without a usable product may be refused after the steady state has been found"]
CASE_LIMIT = 800

MECHS = ["er", "coox", "ads", "twosite", "five"]
ENE = "moderate"
BAD = ["str", "dict", "set", "number", "generator", "array", "long", "longer", "words", "nothing",
       "no product", "foreign product", "adsorbate product", "site product",
       "no Gaf", "no Gar", "short Gaf", "short Gar", "foreign turnover", "no plugin", "no model", "short"]
GOOD = ["own", "passed", "fsolve", "coarse"]


def bounds(tier):
    return dict(mechanisms=names(tier), unusable=BAD, usable=GOOD, length_of_histories=depth(tier) + 1)


def names(tier):
    return MECHS if tier == "thorough" else MECHS[:3]


def depth(tier):
    return 2


def cases(tier):
    out = []
    for name in names(tier):
        for first in BAD + GOOD:
            out.append(dict(mech=name, first=first, depth=depth(tier), goods=GOOD if tier == "thorough" else ["own", "passed"]))
    if tier == "thorough":
        for first, second in itertools.product(BAD + GOOD, repeat=2):
            out.append(dict(mech="er", first=first, second=second, depth=3, goods=["own", "passed"]))
    return out


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.solvers.steady_state_solver, scipy.integrate, scipy.optimize, mpmath, sympy


class World(object):
    def __init__(self, name, rec):
        for f in os.listdir("."):
            if os.path.isfile(f):
                os.remove(f)
        self.rec, self.mech = rec, ref.Mech(steady.MECHS[name])
        self.k, self.n = len(self.mech.rxns), len(self.mech.ads)
        self.m = build.mkm(self.mech, energies=steady.energies(ENE, self.k), tolerance=1e-8, rootfinding="MDNewton", p=self.p(), archived_variables=["steady_state_coverages", "rates"])
        self.good = [0.3 / self.n] * self.n
        self.history, self.solved = [], None
        self.seen = self.results()

    def p(self):
        return dict((g, [1.0, 0.3, 2.5, 0.7][i % 4]) for i, g in enumerate(self.mech.gas))

    def results(self):
        out = []
        for a in ("steady_state_coverages", "TOFs", "reversibilities", "error"):
            try:
                out.append(canon(getattr(self.m, a)))
            except Exception:
                out.append("none")
        return tuple(out)

    def files(self):
        out = {}
        for f in sorted(os.listdir(".")):
            if os.path.isfile(f) and f != "out.log":
                with open(f, "rb") as g:
                    out[f] = g.read()
        return out

    def request(self, op):
        """(call, has the search been done before the refusal?)"""
        m, g = self.m, list(self.good)
        e = steady.rel(ENE, self.k)
        init = {"str": "0" * self.n, "dict": dict((i, 0.1) for i in range(self.n)), "set": set([0.1 / (i + 1) for i in range(self.n)]), "number": 0.3,
                "generator": (x for x in g), "long": g + [0.1], "longer": tuple(g + g + [0.0]), "words": ["a"] * self.n, "nothing": [None] * self.n}
        if op in init:
            return lambda: m.run(init_cvgs=init[op], coarse_guess=False), False
        if op == "array":
            import numpy
            return lambda: m.run(init_cvgs=numpy.array([g, g]), coarse_guess=False), False
        if op == "short":
            return lambda: m.run(init_cvgs=g[:-1] if self.n > 1 else "", coarse_guess=False), False
        prod = {"no product": {}, "foreign product": dict(product_name="N2_g"), "adsorbate product": dict(product_name=self.mech.ads[0]),
                "site product": dict(product_name="*_s")}
        if op in prod:
            return lambda: m.run(init_cvgs=g, XRC=True, coarse_guess=False, **prod[op]), True
        if op.startswith("no G"):
            del e[op[3:]]
            return lambda: m.run(init_cvgs=g, relative_energies=e, coarse_guess=False), False
        if op.startswith("short G"):
            e[op[6:]] = e[op[6:]][:-1]
            return lambda: m.run(init_cvgs=g, relative_energies=e, coarse_guess=False), False
        if op == "foreign turnover":
            return lambda: m.solver.get_tof(cvgs=tuple(g), gas_name="N2_g"), False
        if op == "no plugin":
            return lambda: m.analysis_register(dict), False
        if op == "no model":
            # another supply of guesses that does what the model's own does
            usual = m.hybrid_method

            def use():
                m.hybrid_method_register(lambda model, N: usual(model, N))
                m.hybrid_method("not a model", 0)
            return use, False
        raise KeyError(op)

    def bad(self, op):
        rec, what = self.rec, "%r after %r" % (op, self.history)
        if op == "short" and self.n == 1:
            self.history.append("(%s)" % op)
            return
        before, files, plugins = self.results(), self.files(), len(self.m.analysis)
        call, late = self.request(op)
        rec.step()
        refused = False
        try:
            call()
        except Exception as e:
            refused = True
            rec.count("refused with " + type(e).__name__)
        rec.check(refused, "accepted", lambda: "%r: the unusable request %s is not refused" % (self.mech.texts(), what))
        self.history.append(op)
        if late and refused:
            # the search was completed: its result may stand
            r = self.results()
            if r != before:
                self.judge(steady.rel(ENE, self.k), what)
        elif refused:
            rec.check(self.results() == before, "results", lambda: "%r: %s changed the results of the model: %r, before %r" % (self.mech.texts(), what, self.results(), before))
            # rates at the coverages asked about may be archived
            rec.check(op == "foreign turnover" or self.files() == files, "directory", lambda: "%r: %s changed the directory: %r, before %r" % (self.mech.texts(), what, sorted(self.files()), sorted(files)))
        rec.check(len(self.m.analysis) == plugins, "plugins", lambda: "%s registered an analysis" % what)
        rec.state((tuple(self.mech.texts()), self.results(), op, sorted(self.files())))

    def run(self, op):
        rec, what = self.rec, "%r after %r" % (op, self.history)
        e = steady.rel("weak" if op == "passed" else ENE, self.k)
        kw = dict(init_cvgs=list(self.good), coarse_guess=op == "coarse", fsolve=op == "fsolve")
        if op == "passed":
            kw["relative_energies"] = e
        rec.step()
        try:
            self.m.run(**kw)
        except Exception as x:
            rec.fail("usable run", "%r: the usable run %s raised %s: %s" % (self.mech.texts(), what, type(x).__name__, x))
        self.history.append(op)
        self.judge(e, what, op != "fsolve")
        if op != "fsolve":
            with open(self.m.data_file, "rb") as f:
                d = pickle.load(f)
            rec.check(canon(d["steady_state_coverages"]) == canon(self.m.steady_state_coverages), "archive", lambda: "%s: archived %r, reported %r" % (what, d["steady_state_coverages"], self.m.steady_state_coverages))
        rec.state((tuple(self.mech.texts()), self.results(), op, sorted(self.files())))

    def judge(self, e, what, precise=True):
        rec, c = self.rec, self.m.steady_state_coverages
        what = "%r %s" % (self.mech.texts(), what)
        # fsolve may find any root
        root = self.root(e) if precise else c
        rec.check(len(c) == self.n and all(abs(mpmath.mpf(a) - b) < 1e-6 for a, b in zip(c, root)), "steady state", lambda: "%s: coverages %r, expected %r" % (what, [float(x) for x in c], [float(x) for x in root]))
        kf, kr = steady.constants(450.0, e)
        act = self.mech.free([mpmath.mpf(x) for x in c], {s: 1.0 for s in self.mech.site})
        act.update(self.p())
        rf, rr = self.mech.rates(kf, kr, act)
        size = max(abs(x) for x in rf)
        for g, t in zip(self.mech.gas, self.m.TOFs):
            w = sum(self.mech.net(r, g) * (a - b) for r, a, b in zip(self.mech.rxns, rf, rr))
            rec.check(abs(mpmath.mpf(t) - w) <= 1e-9 * size, "turnover", lambda: "%s: turnover of %s %s, expected %s" % (what, g, t, w))

    cache = {}

    def root(self, e):
        key = (tuple(self.mech.texts()), repr(canon(e)))
        if key not in self.cache:
            with mpmath.workdps(40):
                g = lambda *v: steady.evaluate(self.mech, 450.0, e, self.p(), {}, v)[0]
                best = None
                for s in itertools.product([0.3 / self.n, 0.05, 0.9 / self.n], repeat=min(self.n, 3)):
                    try:
                        r = mpmath.findroot(g, (list(s) + [0.1] * self.n)[:self.n], tol=1e-22, maxsteps=80)
                    except Exception:
                        continue
                    r = [mpmath.mpf(x) for x in (r if hasattr(r, "__iter__") else [r])]
                    free = steady.evaluate(self.mech, 450.0, e, self.p(), {}, r)[2]
                    if min(r) >= 0 and min(free.values()) >= 0:
                        best = r
                        break
                assert best is not None, (self.mech.texts(), e)
                self.cache[key] = best
        return self.cache[key]


def run_case(c, rec):
    fixed = [c["first"]] + ([c["second"]] if "second" in c else [])
    ops = BAD + GOOD
    for rest in itertools.product(ops, repeat=c["depth"] - len(fixed)):
        seq = fixed + list(rest)
        for last in c["goods"]:
            w = World(c["mech"], rec)
            for op in seq + [last]:
                w.run(op) if op in GOOD else w.bad(op)
            rec.trace()
            rec.outcome((c["mech"], tuple(seq), last))
    rec.sample(dict(mechanism=w.mech.texts(), history=w.history, results=[str(x) for x in w.results()]))
