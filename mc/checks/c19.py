"""C19: parameters of a model as a state machine."""
import copy
import itertools
from .. import ref, build, steady, env

PROPERTY = "C19"
TECHNIQUE = ("explicit-state model checking of the configuration: every parameter of both model classes is a two-state automaton "
             "(open, fixed at a value); every sequence of reads, good, bad and aliased assignments up to the bound is replayed on the "
             "real model and every read compared with the automaton")
RULE = "a state is (model class, parameter, automaton state); a transition one read or assignment"
ASSUMPTIONS = ["reading a parameter that was not set fixes its default",
               "parser, solver, corrector and plotter may be replaced, through their checked setters",
               "rate_algo and the exact class of on-the-fly analyses are left open"]
CASE_LIMIT = 600

I, F, S, B = ("int",), ("float",), ("str",), ("bool",)
LEVELS = ("int", list(range(0, 60, 10)))


def seq(entry, *choices):
    return ("seq", entry) + ((list(choices),) if choices else ())


COMMON = dict(setup_file=S, unitcell_area=F, active_ratio=F, components=seq("str"), temperature=F)
MICRO = dict(COMMON, decimal_precision=I, perturbation_size=F, perturbation_direction=("str", ["right", "left"]), archived_variables=seq("str"),
             numerical_representation=("str", ["mpmath", "sympy"]), rootfinding=("str", ["MDNewton", "ConstrainedNewton"]), tolerance=F,
             max_rootfinding_iterations=I, ode_buffer_size=I, ode_output_interval=I, ref_energies=("refs",))
KMC = dict(COMMON, cell_vectors=("vectors",), basis_sites=("vectors",), repetitions=seq("int"), periodic=seq("bool"), nstep=I, random_seed=I, time_seed=B,
           trajectory_dump_interval=I, random_generator=("str", ["MT", "MINSTD", "RANLUX24", "RANLUX48"]),
           analysis=seq("str", "CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"), analysis_interval=("intervals",),
           possible_element_types=seq("str"), possible_site_types=seq("str"), empty_type=S, tof_start=I, time_limit=F, coverage_ratios=seq("float"),
           extra_trajectories=seq("int"), start_time=F, tof_interval=F, do_redistribution=B, redistribution_interval=I, fast_species=seq("str"),
           nsplits=seq("int"), distributor_type=("str", ["RandomDistributor", "ProcessRandomDistributor"]))
DEFAULTS = dict(setup_file="", unitcell_area=0.0, active_ratio=1.0, components=["parser"], temperature=298.0, decimal_precision=100, perturbation_size=0.01,
                perturbation_direction="right", archived_variables=["steady_state_coverages"], numerical_representation="mpmath", rootfinding="MDNewton",
                tolerance=1e-8, max_rootfinding_iterations=100, ode_buffer_size=500, ode_output_interval=200, ref_energies={},
                cell_vectors=[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], basis_sites=[[0.0, 0.0, 0.0]], repetitions=(1, 1, 1),
                periodic=(True, True, True), nstep=1, random_seed=None, time_seed=False, trajectory_dump_interval=1, random_generator="MT", analysis=[],
                analysis_interval=None, possible_element_types=[], possible_site_types=[], empty_type="V", tof_start=0, time_limit=float("inf"),
                coverage_ratios=[], extra_trajectories=None, start_time=0.0, tof_interval=10, do_redistribution=False, redistribution_interval=1,
                fast_species=None, nsplits=(1, 1, 1), distributor_type="RandomDistributor")
CLASSES = {"micro": MICRO, "kmc": KMC}

DERIVED = ["gas_names", "adsorbate_names", "liquid_names", "site_names", "transition_state_names", "elementary_rxns_list", "kB", "h", "logger",
           "relative_energies", "absolute_energies", "has_relative_energy", "has_absolute_energy", "log_allowed"]
DERIVED_MICRO = DERIVED + ["data_file", "steady_state_coverages", "TOFs", "reversibilities", "error", "model_info"]
DERIVED_KMC = DERIVED + ["process_dicts", "processes", "configuration", "sitesmap", "process_mapping"]
DERIVED_SOLVER = ["error", "coverages", "has_absolute_energy", "absolute_corrected", "has_symbols", "classified_adsorbates", "pressures", "concentrations",
                  "absolute_energies", "rate_expressions"]


def menu():
    """All kinds of values, good for some parameter and bad for others."""
    import numpy as np
    import mpmath

    class MyStr(str):
        pass

    class MyInt(int):
        pass
    return [1, 0, -3, 20, 25, True, False, 2.5, -0.5, float("inf"), "", "abc", "right", "left", "Right", "MDNewton", "ConstrainedNewton", "mpmath", "sympy",
            "MT", "MINSTD", "RandomDistributor", "ProcessRandomDistributor", None, [], (), [1], [1, 2, 3], (4, 5, 6), [1, 2.0], [1.0, 0.5], (0.25,), ["a"], ["rates", "tofs"],
            ("a", "b"), ["a", 1], [True, False, True], (True, 1), ["CoveragesAnalysis"], ["TOFAnalysis", "EventAnalysis"], ["Coverages"], {}, {"a": 1},
            {"a": -1.5}, {"a": "b"}, {1: 2.0}, [[1.0, 2.0, 3.0]], [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0]], [[1, 2, 3]], [[1.0, 2.0]], [[1.0], [1.0, 2.0]],
            ((1.0, 2.0, 3.0),), [[[1.0, 2.0, 3.0]]], [1.0, 2.0, 3.0], [[1, 10, 2]], [2, (0, 4, 2)], [[10, 1, 1]], [[1, 10, 20]], [[1, 10]], [["1", 2, 3]],
            {1, 2}, b"abc", MyStr("right"), MyInt(3), np.float64(1.5), np.int64(3), mpmath.mpf(2), np.array([[1.0, 2.0, 3.0]]), 1j, int, range(3), [None],
            [[]], [MyStr("a")]]


def exact(v, kind):
    return type(v) in {"int": (int,), "float": (int, float), "str": (str,), "bool": (bool,)}[kind]


def good(spec, v):
    kind = spec[0]
    if kind in ("int", "float", "str", "bool"):
        return exact(v, kind) and (len(spec) < 2 or v in spec[1])
    if kind == "seq":
        # sequences want exactly the entry type
        entry = {"int": int, "float": float, "str": str, "bool": bool}[spec[1]]
        return type(v) in (list, tuple) and all(type(x) is entry for x in v) and (len(spec) < 3 or all(x in spec[2] for x in v))
    if kind == "refs":
        return isinstance(v, dict) and all(isinstance(k, str) and isinstance(x, float) for k, x in v.items())
    if kind == "vectors":
        return (type(v) is list and len(v) > 0 and all(isinstance(x, (list, tuple)) and len(x) == 3 and all(isinstance(y, float) for y in x) for x in v))
    if kind == "intervals":
        def iv(x):
            if type(x) is int:
                return True
            return (type(x) in (list, tuple) and len(x) == 3 and all(type(y) is int for y in x) and x[1] >= x[0] and x[2] <= x[1] - x[0])
        return type(v) is int or (type(v) in (list, tuple) and all(iv(x) for x in v))
    raise AssertionError(kind)


def bounds(tier):
    return dict(micro_parameters=sorted(MICRO), kmc_parameters=sorted(KMC), values=72, sequence_length=4 if tier == "quick" else 5,
                derived=len(DERIVED_MICRO) + len(DERIVED_KMC) + len(DERIVED_SOLVER))


def cases(tier):
    out = []
    for cls in sorted(CLASSES):
        for name in sorted(CLASSES[cls]):
            out.append(dict(part="values", cls=cls, name=name))
            out.append(dict(part="sequences", cls=cls, name=name, depth=4 if tier == "quick" else 5))
        out.append(dict(part="levels", cls=cls))
        out.append(dict(part="fixed", cls=cls))
        out.append(dict(part="derived", cls=cls))
        out.append(dict(part="definitions", cls=cls))
        out.append(dict(part="components", cls=cls))
    return out


MECH = ["CO_g + *_s -> CO_s"]


def fresh(cls, extra=None, **kw):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    from scaks.models.kmc_model import KMCModel
    env.close_handlers()
    d = dict(rxn_expressions=list(MECH), parser="RelativeEnergyParser",
             species_definitions={"CO_g": {"pressure": 0.5}, "*_s": {"site_name": "111", "type": "site", "total": 1.0}})
    d.update(extra or {})
    return {"micro": MicroKineticModel, "kmc": KMCModel}[cls](setup_dict=d, **kw)


def same(a, b):
    if type(a) in (list, tuple) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is dict and type(b) is dict:
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def show(v):
    return "%s %r" % (type(v).__name__, v)


def assign(m, name, v):
    try:
        setattr(m, name, v)
        return None
    except Exception as e:
        return e


def run_case(c, rec):
    globals()["part_" + c["part"]](c, rec)


def part_values(c, rec):
    """every value, through the set-up dictionary and by assignment"""
    cls, name = c["cls"], c["name"]
    spec = CLASSES[cls][name]
    n = 0
    for v in menu():
        ok = good(spec, v)
        keep = copy.deepcopy(v)
        # by assignment
        m = fresh(cls)
        e = assign(m, name, v)
        what = "%s.%s = %s" % (type(m).__name__, name, show(keep))
        rec.check((e is None) == ok, "accepted or refused", lambda: "%s: %s" % (what, "accepted" if e is None else "refused: %r" % (e,)))
        if ok:
            rec.check(same(getattr(m, name), keep), "value", lambda: "%s reads %s" % (what, show(getattr(m, name))))
            disturb(v)
            rec.check(same(getattr(m, name), keep), "value changed through its original", lambda: "%s, then its original changed: reads %s" % (what, show(getattr(m, name))))
        else:
            rec.check(same(getattr(m, name), DEFAULTS[name]), "refused value in effect", lambda: "%s was refused, but it reads %s" % (what, show(getattr(m, name))))
        rec.step(2)
        # in the set-up dictionary
        v = copy.deepcopy(keep)
        try:
            m, e = fresh(cls, {name: v}), None
        except Exception as err:
            e = err
        rec.check((e is None) == ok, "set-up accepted or refused", lambda: "set-up with %s: %s" % (what, "accepted" if e is None else "refused: %r" % (e,)))
        if ok:
            rec.check(same(getattr(m, name), keep), "value", lambda: "set-up with %s reads %s" % (what, show(getattr(m, name))))
            disturb(v)
            rec.check(same(getattr(m, name), keep), "value changed through its original",
                      lambda: "set-up with %s, then its original changed: reads %s" % (what, show(getattr(m, name))))
            e = assign(m, name, copy.deepcopy(keep))
            rec.check(isinstance(e, AttributeError), "set twice", lambda: "set-up with %s, set again: %r" % (what, e))
        rec.step(2)
        rec.trace(2)
        rec.state((cls, name, "value", repr(keep)))
        rec.outcome((cls, name, ok))
        n += ok
    rec.check(n >= 2 or spec == B, "menu", "%s: only %d good values in the menu" % (name, n))
    rec.sample(dict(parameter=name, good_values=n))


def disturb(v):
    """what a caller may do with its own list or dictionary"""
    if isinstance(v, list):
        v.append("disturbed")
        v[0] = "disturbed"
    elif isinstance(v, dict):
        v["disturbed"] = 1.0
        v.pop(sorted(v, key=str)[0])


def part_sequences(c, rec):
    """every sequence of reads and assignments"""
    cls, name = c["cls"], c["name"]
    spec = CLASSES[cls][name]
    vals = menu()
    ok = [v for v in vals if good(spec, v)]
    bad = [v for v in vals if not good(spec, v)]
    # bad values nearest to good ones: those of another kind of sequence, number, string
    alphabet = [("read",)] + [("set", v) for v in ok[:2] + ok[-1:]] + [("set", v) for v in (bad[0], bad[len(bad) // 2], bad[-1])]
    for seq_ in itertools.product(range(len(alphabet)), repeat=c["depth"]):
        m = fresh(cls)
        fixed, value = False, DEFAULTS[name]
        done = []
        for i in seq_:
            op = alphabet[i]
            done.append(op)
            rec.step()
            if op[0] == "read":
                fixed = True
            else:
                v = copy.deepcopy(op[1])
                e = assign(m, name, v)
                if good(spec, v) and not fixed:
                    rec.check(e is None, "refused", lambda: "%s: %r: refused with %r" % (name, done, e))
                    fixed, value = True, copy.deepcopy(op[1])
                    disturb(v)
                elif good(spec, v):
                    rec.check(isinstance(e, AttributeError), "set twice", lambda: "%s: %r: %r" % (name, done, e))
                else:
                    rec.check(e is not None, "accepted", lambda: "%s: %r: accepted" % (name, done))
                    continue
            got = getattr(m, name)
            rec.check(same(got, value), "value", lambda: "%s: %r reads %s instead of %s" % (name, done, show(got), show(value)))
            rec.state((cls, name, fixed, repr(value)))
        got = getattr(m, name)
        rec.check(same(got, value), "value", lambda: "%s: %r reads %s instead of %s" % (name, done, show(got), show(value)))
        rec.trace()
        rec.outcome((name, repr(value)))
    # no parameter of this or another model moves with it
    for v in ok[:2]:
        a, b = fresh(cls), fresh(cls)
        assign(a, name, copy.deepcopy(v))
        for other in sorted(CLASSES[cls]):
            if other != name:
                rec.check(same(getattr(a, other), DEFAULTS[other]), "another parameter changed", lambda: "%s = %s: %s reads %s" % (name, show(v), other, show(getattr(a, other))))
            rec.check(same(getattr(b, other), DEFAULTS[other]), "another model changed", lambda: "%s = %s: %s of another model reads %s" % (name, show(v), other, show(getattr(b, other))))
        rec.trace()


def part_levels(c, rec):
    """parameters fixed by the constructor's arguments"""
    for name, default in (("logger_level", 20), ("file_handler_level", 10), ("console_handler_level", 20)):
        for v in menu():
            ok = good(LEVELS, v)
            try:
                m, e = fresh(c["cls"], **{name: v}), None
            except Exception as err:
                e = err
            rec.check((e is None) == ok, "accepted or refused", lambda: "%s=%s: %r" % (name, show(v), e))
            if ok:
                rec.check(same(getattr(m, name), v), "value", lambda: "%s=%s reads %s" % (name, show(v), show(getattr(m, name))))
                e = assign(m, name, 30)
                rec.check(isinstance(e, AttributeError) and same(getattr(m, name), v), "set twice", lambda: "%s=%s, then 30: %r, reads %s" % (name, show(v), e, show(getattr(m, name))))
            rec.step()
            rec.state((c["cls"], name, repr(v)))
        m = fresh(c["cls"])
        rec.check(same(getattr(m, name), default), "value", lambda: "%s reads %s" % (name, show(getattr(m, name))))
        rec.trace()
    # both or none of the set-ups, unknown names
    from scaks.models.micro_kinetic_model import MicroKineticModel
    from scaks.models.kmc_model import KMCModel
    cls = {"micro": MicroKineticModel, "kmc": KMCModel}[c["cls"]]
    try:
        cls()
        rec.fail("no set-up", "a model without set-up was built")
    except ValueError:
        pass
    m = fresh(c["cls"], {"no_such_parameter": 3})
    rec.check(not hasattr(m, "no_such_parameter"), "unknown parameter", "an unknown parameter became an attribute")
    with open("setup.mkm", "w") as f:
        f.write("parser = 'RelativeEnergyParser'\nrxn_expressions = %r\ntemperature = 412.5\nspecies_definitions = {'CO_g': {'pressure': 1.0}, '*_s': {'total': 1.0}}\n" % (MECH,))
    env.close_handlers()
    m = cls(setup_file="setup.mkm")
    rec.check((m.temperature, list(m.rxn_expressions), m.setup_file) == (412.5, MECH, "setup.mkm"), "set-up file", "a set-up file was not taken over")
    rec.check(isinstance(assign(m, "temperature", 300.0), AttributeError), "set twice", "temperature of a set-up file set again")
    rec.sample(c)


def part_fixed(c, rec):
    """what the set-up fixed cannot be set again"""
    m = fresh(c["cls"])
    before = {n: copy.deepcopy(getattr(m, n)) for n in ("rxn_expressions", "species_definitions", "setup_dict", "logger_level")}
    for name, v in [("rxn_expressions", []), ("rxn_expressions", ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s"]), ("rxn_expressions", "CO_g + *_s -> CO_s"),
                    ("species_definitions", {}), ("species_definitions", {"CO_g": {"pressure": 2.0}}), ("species_definitions", 3),
                    ("setup_dict", {}), ("setup_dict", {"temperature": 1.0}), ("setup_dict", None), ("logger_level", 20), ("logger_level", 25)]:
        e = assign(m, name, v)
        rec.check(e is not None, "set twice", lambda: "%s = %r accepted" % (name, v))
        for n in before:
            rec.check(same(getattr(m, n), before[n]), "value", lambda: "%s = %r refused, but %s reads %r" % (name, v, n, getattr(m, n)))
        rec.step()
        rec.state((c["cls"], "fixed", name, repr(v)))
    # the dictionaries given
    sd = {"CO_g": {"pressure": 0.5}, "*_s": {"site_name": "111", "type": "site", "total": 1.0}}
    ex = list(MECH)
    d = dict(rxn_expressions=ex, parser="RelativeEnergyParser", species_definitions=sd, temperature=400.0)
    env.close_handlers()
    m = type(m)(setup_dict=d)
    d["temperature"] = 3.0
    ex.append("nonsense")
    sd["CO_g"]["pressure"] = 77.0
    sd["*_s"]["total"] = 7.0
    del sd["*_s"]["type"]
    d.clear()
    rec.check(list(m.rxn_expressions) == MECH, "value changed through its original", lambda: "rxn_expressions reads %r" % (m.rxn_expressions,))
    rec.check(m.temperature == 400.0, "value changed through its original", lambda: "temperature reads %r" % (m.temperature,))
    rec.check(m.species_definitions["CO_g"]["pressure"] == 0.5 and m.species_definitions["*_s"] == {"site_name": "111", "type": "site", "total": 1.0},
              "value changed through its original", lambda: "species_definitions reads %r" % (m.species_definitions,))
    rec.trace(2)
    # bad definitions
    for sd in (3, None, [], {"CO_g": {}}, {"CO_g": {"Pressure": 1.0}, "*_s": {"total": 1.0}}):
        try:
            fresh(c["cls"], {"species_definitions": sd})
            rec.fail("accepted", "species definitions %r accepted" % (sd,))
        except Exception as e:
            if type(e).__name__ == "CaseViolation":
                raise
        rec.trace()


def part_derived(c, rec):
    def read(o, n):
        try:
            v = getattr(o, n)
            return ("value", repr(v))
        except Exception as e:
            return ("raises", type(e).__name__)
    if c["cls"] == "micro":
        m = build.mkm(ref.Mech(steady.MECHS["er"]), energies=steady.energies("moderate", 2), tolerance=1e-8)
        m.run(init_cvgs=[0.3] * len(m.adsorbate_names))
        objs = [(m, DERIVED_MICRO), (m.solver, DERIVED_SOLVER)]
        u = fresh("micro")
        objs.append((u, DERIVED_MICRO))
    else:
        m = fresh("kmc")
        objs = [(m, DERIVED_KMC)]
    for o, names in objs:
        before = {n: read(o, n) for n in names}
        for n in names:
            for v in (None, 0, 1.5, "x", [], ["CO_g"], {"Gaf": [1.0]}, (0.1,), True):
                e = assign(o, n, v)
                rec.check(isinstance(e, AttributeError), "derived quantity assigned", lambda: "%s.%s = %r: %r" % (type(o).__name__, n, v, e))
                rec.step()
            after = {k: read(o, k) for k in names}
            rec.check(after == before, "derived quantity changed", lambda: "%s.%s = ... refused, but %r" % (type(o).__name__, n, {k: (before[k], after[k]) for k in names if before[k] != after[k]}))
            rec.state((c["cls"], type(o).__name__, n))
            rec.trace()
    rec.sample(dict(derived=objs[0][1]))


def part_definitions(c, rec):
    """species definitions that were read cannot alter the model"""
    def everything(m):
        return repr(m.species_definitions)
    m = fresh(c["cls"], {"temperature": 450.0})
    before = everything(m)
    changes = [lambda d: d.clear(), lambda d: d.update({"X_g": {"pressure": 1.0}}), lambda d: d["CO_g"].update(pressure=9.0), lambda d: d["CO_g"].clear(),
               lambda d: d["*_s"].update(total=4.0), lambda d: d["*_s"].__setitem__("type", "gas"), lambda d: d.pop("*_s"), lambda d: d.__setitem__("*_s", None)]
    sources = [lambda: m.species_definitions]
    if hasattr(m.parser, "species_definitions"):
        sources.append(lambda: m.parser.species_definitions)
    for depth in (1, 2):
        for ch in itertools.product(range(len(changes)), repeat=depth):
            for src in sources:
                d = src()
                for i in ch:
                    try:
                        changes[i](d)
                    except (KeyError, TypeError, AttributeError):
                        pass
                rec.check(everything(m) == before, "altered through what was read", lambda: "change %r of the definitions read: the model reads %s" % (ch, everything(m)))
                rec.step()
                rec.state((c["cls"], "definitions", ch))
            rec.trace()
    if c["cls"] == "micro":
        mm = build.mkm(ref.Mech(steady.MECHS["er"]), energies=steady.energies("moderate", 2))
        r0 = [repr(mm.solver.get_rates(cvgs_tuple=(0.3,))), repr(mm.solver.steady_state_function((0.3,)))]
        d = mm.species_definitions
        for k in d:
            d[k].update(pressure=17.0, total=3.0)
        rec.check([repr(mm.solver.get_rates(cvgs_tuple=(0.3,))), repr(mm.solver.steady_state_function((0.3,)))] == r0, "altered through what was read", "rates changed")


def part_components(c, rec):
    m = fresh(c["cls"])
    names = {"parser": ["RelativeEnergyParser", "AbsoluteEnergyParser", "KMCParser"], "corrector": ["ThermodynamicCorrector"],
             "plotter": ["EnergyProfilePlotter"], "solver": ["SteadyStateSolver"]}
    if c["cls"] == "kmc":
        names["solver"] = []
        names["parser"].remove("KMCParser")
    else:
        names["parser"].remove("KMCParser")
    every = sum(names.values(), []) + ["KMCModel", "ParserBase", "SolverBase", "MDNewton", ""]
    for comp in sorted(names):
        for v in every + menu():
            old = getattr(m, comp)
            ok = type(v) is str and v in names[comp]
            e = assign(m, comp, v)
            rec.check((e is None) == ok, "component accepted or refused", lambda: "%s = %s: %r" % (comp, show(v), e))
            now = getattr(m, comp)
            if ok:
                rec.check(type(now).__name__ == v and now is not old, "component", lambda: "%s = %r: is %r" % (comp, v, now))
            else:
                rec.check(now is old, "refused component in effect", lambda: "%s = %s refused, but is %r instead of %r" % (comp, show(v), now, old))
            rec.step()
            rec.state((c["cls"], comp, repr(v)[:60]))
        rec.trace()
        for bad in ("NoSuchParser", 3, None):
            try:
                fresh(c["cls"], {comp: bad})
                rec.fail("component accepted", "set-up with %s = %r accepted" % (comp, bad))
            except Exception as e:
                if type(e).__name__ == "CaseViolation":
                    raise
    if c["cls"] == "kmc":
        return
    from scaks.solvers.steady_state_solver import SteadyStateSolver
    from scaks.correctors.thermodynamic_corrector import ThermodynamicCorrector
    from scaks.plotters.energy_profile_plotter import EnergyProfilePlotter
    kinds = {"solver": SteadyStateSolver, "corrector": ThermodynamicCorrector, "plotter": EnergyProfilePlotter}
    objs = {k: v(owner=m) for k, v in kinds.items()}
    for k in kinds:
        for other in list(objs.values()) + [None, "SteadyStateSolver", 3, kinds[k], m]:
            old = getattr(m, k)
            try:
                getattr(m, "set_" + k)(other)
                e = None
            except Exception as err:
                e = err
            ok = other is objs[k]
            rec.check((e is None) == ok, "component setter", lambda: "set_%s(%r): %r" % (k, other, e))
            rec.check(getattr(m, k) is (other if ok else old), "component setter", lambda: "after set_%s(%r) the %s is %r" % (k, other, k, getattr(m, k)))
            rec.step()
        rec.trace()
