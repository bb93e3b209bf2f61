"""C44: replacing a model's components."""
import itertools
import math
from .. import ref, build, env, kmc

PROPERTY = "C44"
TECHNIQUE = ("bounded exhaustive exploration: all sequences of replacements (own solvers, correctors and plotters, objects of no such kind) up to a depth on the real model, "
             "with what is calculated, searched and drawn observed after each sequence through recording components")
RULE = "a state is (set-up, replacements made so far); a transition one replacement, calculation, search or drawing"
ASSUMPTIONS = ["a component is used when one of its public methods is called while the model calculates, searches or draws",
               "the correction of a gas shows in the rate of its adsorption from the gas phase under collision theory"]
CASE_LIMIT = 600

GOOD = [(k, i) for k in ("solver", "corrector", "plotter") for i in (0, 1, 2)]
BAD = ["none", "name", "class", "model", "other", "other2", "number", "lookalike"]
SHIFT = [0.25, -0.4, 1.0]


def bounds(tier):
    return dict(replacements=GOOD + [("solver", "bad"), ("corrector", "bad"), ("plotter", "bad")], depth=3 if tier == "quick" else 4, refused=BAD,
                setups=["all components", "no corrector", "no plotter", "no solver"])


def cases(tier):
    ops = GOOD + [(k, "bad") for k in ("solver", "corrector", "plotter")]
    out = [dict(first=[a, b], depth=1 if tier == "quick" else 2, setup="all") for a in ops for b in ops]
    out += [dict(first=[a], depth=1, setup=s) for a in ops for s in ("corrector", "plotter", "solver")]
    out += [dict(first=[], depth=0, setup=s) for s in ("all", "corrector", "plotter", "solver")]
    return out + [dict(bad=b, setup=s) for b in BAD for s in ("all", "corrector", "plotter", "solver")] + [dict(kmc=k) for k in range(3)]


def worker_init(*a):
    import scaks.models.micro_kinetic_model  # noqa


STEPS = ["CO_g + *_s -> CO_s", "CO_s -> CO_g + *_s"]
ENE = ([0.0, 0.7], [-0.5, 0.55])


def model(setup):
    opt = {}
    if setup != "all":
        opt[setup] = None
    m = build.mkm(ref.Mech(STEPS), energies=ENE, rate_algo="CT", unitcell_area=9e-20, active_ratio=0.5, p={"CO_g": 0.3}, **opt)
    m.hybrid_method = None
    return m


class Fleet(object):
    """The recording components made for one model."""

    def __init__(self, m):
        from scaks.solvers.steady_state_solver import SteadyStateSolver
        from scaks.correctors.thermodynamic_corrector import ThermodynamicCorrector
        from scaks.plotters.energy_profile_plotter import EnergyProfilePlotter
        self.used = used = []

        def recording(base, tag, **own):
            def get(self_, name):
                if not name.startswith("_"):
                    used.append(tag)
                return object.__getattribute__(self_, name)
            return type(base)("Own" + base.__name__, (base,), dict(own, __getattribute__=get))
        self.parts = {}
        for i in range(3):
            s = recording(SteadyStateSolver, ("solver", i))(m)
            s.get_data()
            self.parts["solver", i] = s

            def correction(self_, *a, **k):
                return SHIFT[self_.number]
            c = recording(ThermodynamicCorrector, ("corrector", i), entropy_correction=correction)(m)
            c.number = i
            self.parts["corrector", i] = c

            def plot_all(self_, *a, **k):
                self_.drawn = getattr(self_, "drawn", 0) + 1
            self.parts["plotter", i] = recording(EnergyProfilePlotter, ("plotter", i), plot_all=plot_all)(m)
        del used[:]


class Lookalike(object):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: 1.0


def bad(kind, slot, m, fleet):
    return {"none": None, "name": {"solver": "SteadyStateSolver", "corrector": "ThermodynamicCorrector", "plotter": "EnergyProfilePlotter"}[slot],
            "class": type(fleet.parts[slot, 0]), "model": m, "other": fleet.parts[{"solver": "corrector", "corrector": "plotter", "plotter": "solver"}[slot], 1],
            "other2": fleet.parts[{"solver": "plotter", "corrector": "solver", "plotter": "corrector"}[slot], 2], "number": 3,
            "lookalike": Lookalike()}[kind]


def offer(m, fleet, cur, op, rec, what, kind="name"):
    slot, i = op
    setter = getattr(m, "set_" + slot)
    rec.step()
    if i == "bad":
        try:
            setter(bad(kind, slot, m, fleet))
            ok = True
        except Exception:
            ok = False
        rec.check(not ok, "accepted", lambda: "%s: %s was accepted as %s" % (what(), kind, slot))
    else:
        setter(fleet.parts[op])
        cur[slot] = fleet.parts[op]
    for s in ("solver", "corrector", "plotter"):
        rec.check(getattr(m, s) is cur[s], "current " + s, lambda: "%s: the %s is %r, expected %r" % (what(), s, getattr(m, s), cur[s]))


def tag(fleet, part):
    for t, p in fleet.parts.items():
        if p is part:
            return t
    return None


def use(m, fleet, cur, rec, what):
    used = fleet.used
    T = m.temperature
    # the corrector: the rate of adsorption seen from the gas phase
    rec.step(3)
    t = tag(fleet, cur["corrector"])
    if cur["corrector"] is not None and cur["solver"] is not None:
        del used[:]
        kf, kr = [], []
        for text in m.rxn_expressions:
            f, r = m.solver.get_rxn_rates_CT(text, m.relative_energies)
            kf.append(float(f))
            kr.append(float(r))
        seen = {x for x in used if x[0] == "corrector"}
        rec.check(seen == ({t} if t else set()), "corrector used", lambda: "%s: correctors %r used, expected %r" % (what(), sorted(seen), t))
        if t:
            e = ENE[0][1] - ENE[1][1] - SHIFT[t[1]]
            want = ref.KB_EV * T / ref.H_EV * math.exp(-e / (ref.KB_EV * T))
            rec.check(abs(kr[1] / want - 1) < 1e-6, "correction", lambda: "%s: adsorption rate %r, expected %r" % (what(), kr[1], want))
        rec.outcome(tuple("%.6e" % x for x in kf + kr))
    # the solver: a search
    t = tag(fleet, cur["solver"])
    if cur["corrector"] is not None and cur["solver"] is not None:
        del used[:]
        env.fresh()
        m.run(init_cvgs=[0.5], coarse_guess=False)
        seen = {x for x in used if x[0] == "solver"}
        rec.check(seen == ({t} if t else set()), "solver used", lambda: "%s: solvers %r used, expected %r" % (what(), sorted(seen), t))
        rec.check(len(m.steady_state_coverages) == 1 and 0 <= float(m.steady_state_coverages[0]) <= 1, "search", lambda: "%s: %r" % (what(), m.steady_state_coverages))
        d = [float(x) for x in m.solver.steady_state_function(tuple(m.steady_state_coverages))]
        rec.check(all(abs(x) < 1e-6 * max(kf) for x in d), "not steady", lambda: "%s: at %r the derivatives are %r" % (what(), m.steady_state_coverages, d))
    # the plotter
    t = tag(fleet, cur["plotter"])
    if t:
        before = {k: getattr(p, "drawn", 0) for k, p in fleet.parts.items() if k[0] == "plotter"}
        m.plotter.plot_all()
        for k in before:
            rec.check(getattr(fleet.parts[k], "drawn", 0) == before[k] + (k == t), "plotter used", what)


def start(setup):
    m = model(setup)
    fleet = Fleet(m)
    cur = {s: getattr(m, s) for s in ("solver", "corrector", "plotter")}
    return m, fleet, cur


def lattice_runs(first, rec):
    """The same for the solver of a KMC model."""
    from KMCLib import KMCLatticeModel
    from scaks.solvers.kmc_solver import KMCSolver
    d = dict(reaction=kmc.RXNS[0], coordinates_group=[[[0.0, 0.0, 0.0]]], elements_before=["V"], elements_after=["C"], basis_sites=[0])
    for tail in itertools.product((0, 1, 2, "bad"), repeat=2):
        m = kmc.model([d])
        used = []

        def make(i):
            def get(self_, name):
                if not name.startswith("_"):
                    used.append(i)
                return object.__getattribute__(self_, name)
            return type("KMCSolver", (KMCSolver,), dict(__getattribute__=get))(m)
        parts = [make(i) for i in range(3)]
        cur, tag_ = m.solver, None
        seq = (first,) + tail
        what = lambda: "KMC model, solvers %r" % (seq,)
        for i in seq:
            rec.step()
            try:
                m.set_solver(parts[i] if i != "bad" else m.parser)
                ok = True
            except Exception:
                ok = False
            rec.check(ok == (i != "bad"), "accepted", lambda: "%s: %r accepted: %s" % (what(), i, ok))
            if ok:
                cur, tag_ = parts[i], i
            rec.check(m.solver is cur, "current solver", what)
            del used[:]
            n = len(KMCLatticeModel.runs)
            m.run(scripting=False)
            rec.check(len(KMCLatticeModel.runs) == n + 1, "run", what)
            KMCLatticeModel.runs.pop()
            rec.check(set(used) == ({tag_} if tag_ is not None else set()), "solver used", lambda: "%s: solvers %r used, expected %r" % (what(), set(used), tag_))
        rec.state(("kmc", seq))
        rec.trace()


def run_case(c, rec):
    if "kmc" in c:
        return lattice_runs(c["kmc"], rec)
    ops = GOOD + [(k, "bad") for k in ("solver", "corrector", "plotter")]
    other = model("all")
    others = {s: getattr(other, s) for s in ("solver", "corrector", "plotter")}
    if "bad" in c:
        for slot in ("solver", "corrector", "plotter"):
            for prefix in [()] + [(g,) for g in GOOD]:
                m, fleet, cur = start(c["setup"])
                what = lambda: "%r, then %s as %s" % (prefix, c["bad"], slot)
                for op in prefix:
                    offer(m, fleet, cur, op, rec, what)
                offer(m, fleet, cur, (slot, "bad"), rec, what, c["bad"])
                use(m, fleet, cur, rec, what)
                rec.state((c["setup"], prefix, slot, c["bad"]))
                rec.trace()
    else:
        for tail in itertools.product(ops, repeat=c["depth"]):
            seq = [tuple(x) for x in c["first"]] + list(tail)
            m, fleet, cur = start(c["setup"])
            what = lambda: "without %s: %r" % (c["setup"], seq) if c["setup"] != "all" else "%r" % (seq,)
            for i, op in enumerate(seq):
                offer(m, fleet, cur, op, rec, what)
                rec.state((c["setup"], tuple(seq[:i + 1])))
                if len(seq) < 3:
                    use(m, fleet, cur, rec, what)
            use(m, fleet, cur, rec, what)
            rec.trace()
        rec.sample(dict(setup=c["setup"], replacements=[list(x) for x in seq]))
    for s in others:
        rec.check(getattr(other, s) is others[s], "another model", lambda: "%r changed the %s of another model" % (c, s))
