"""C18: models do not influence each other."""
import copy
import itertools
import os
import pickle
import signal
import sys
import traceback
from .. import ref, build, steady, env, core

PROPERTY = "C18"
TECHNIQUE = ("bounded exhaustive exploration of call histories: every sequence of calls on two models living in one process (building, "
             "evaluating, searching, registering, loading energies, disturbing what was returned or passed); every result is compared with "
             "the one a process gets that holds this model alone and makes this call only")
RULE = "a state is (pair of set-ups, sequence of calls); a transition one call"
ASSUMPTIONS = ["the reference run is a forked process of its own for every (set-up, loaded energies, registrations, call)",
               "changing model.relative_energies in place is loading energies, not changing a result"]
CASE_LIMIT = 800

OPS = ["rc", "rc1", "rates", "rates1", "net", "tof", "dtheta", "jac", "jac1", "resid", "sym", "symjac", "tst", "exprs", "mats", "corr", "attrs", "search", "search1", "ode", "xrc", "register", "hybrid", "load"]
SMALL = ["rc", "rates1", "search", "register", "load"]
SLOW = {"ode", "xrc", "sym", "symjac"}      # quick: combined with the calls in SMALL only
CORE = ["rc", "rc1", "rates1", "dtheta", "jac", "search", "register", "load"]

BASE = dict(T=450.0, p={}, mech="er", e="moderate", tol=1e-20, prec=50)
VARIANTS = {
    "temperature": (dict(), dict(T=500.0)),
    "energies": (dict(), dict(e="strong")),
    "pressure": (dict(), dict(p={"CO_g": 0.25, "O2_g": 2.0})),
    "precision": (dict(), dict(prec=100)),
    "low precision": (dict(prec=20, tol=1e-8), dict(prec=70)),
    "mechanism": (dict(), dict(mech="coox")),
    "sites": (dict(mech="coox"), dict(mech="coox", totals={"*_s": 0.5})),
    "same": (dict(), dict()),
    "options": (dict(), dict(opt={"rootfinding": "ConstrainedNewton", "max_rootfinding_iterations": 7, "perturbation_size": 0.02, "archived_variables": ["rates"]})),
    "liquid": (dict(mech="liq"), dict(mech="liq", c={"H2O_l": 3.0})),
}


def bounds(tier):
    return dict(pairs=sorted(VARIANTS), calls=OPS, histories="all of length 2 over %d calls x 2 models, of length 3 over %d x 2%s, models built first or when needed, "
                "results and arguments disturbed or not%s" % (
                    len(OPS), len(SMALL if tier == "quick" else CORE), "" if tier == "quick" else ", of length 4 over %d x 2" % len(SMALL),
                    "" if tier != "quick" else " (sym, symjac, ode and xrc combined with %s only)" % ", ".join(SMALL)))


def cases(tier):
    out = []
    for v in sorted(VARIANTS):
        for i in range(len(OPS)):
            out.append(dict(pair=v, part="pairs", first=OPS[i], tier=tier))
        for op in SMALL if tier == "quick" else CORE:
            out.append(dict(pair=v, part="deep", first=op, tier=tier))
            if tier == "thorough" and op in SMALL:
                out.append(dict(pair=v, part="deepest", first=op, tier=tier))
    return out


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.solvers.steady_state_solver, scipy.integrate, scipy.optimize, mpmath, sympy


def fork_call(fn):
    """fn() in a process of its own."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException:
                data = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise core.InfraError("a forked run ended without a word")
    kind, value = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(value)
    return value


def canon(x):
    """A value as comparable data, independent of the working precision."""
    import numpy as np
    import mpmath
    import sympy
    if isinstance(x, mpmath.mpf) or type(x).__name__ == "mpf":
        return ("mpf",) + tuple(int(v) for v in x._mpf_)
    if type(x).__name__ == "constant":
        return canon(+x)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__ if type(x) in (list, tuple) else "seq"] + [canon(v) for v in x]
    if isinstance(x, dict):
        return ["dict"] + sorted([repr(k), canon(v)] for k, v in x.items())
    if isinstance(x, np.ndarray):
        return ["array", x.shape, [canon(v) for v in x.ravel().tolist()]]
    if isinstance(x, (np.floating, np.integer)):
        return ["np", repr(x.item())]
    if type(x).__name__ == "matrix":
        return ["matrix", x.rows, x.cols, [canon(v) for v in x]]
    if isinstance(x, sympy.Basic):
        return ["sym", sympy.srepr(x)]
    if x is None or isinstance(x, (str, int, float, bool)):
        return [type(x).__name__, repr(x)]
    return type(x).__name__


class Model(object):
    """A real model, with what was returned by and passed to it."""

    def __init__(self, spec):
        d = copy.deepcopy(dict(BASE, **spec))
        self.mech = ref.Mech(steady.MECHS[d["mech"]])
        self.k, self.n = len(self.mech.rxns), len(self.mech.ads)
        self.d = d
        self.setup = build.clean(build.setup_dict(self.mech, T=d["T"], p=d["p"], totals=d.get("totals"), c=d.get("c"), tolerance=d["tol"],
                                                  decimal_precision=d["prec"], **d.get("opt", {})))
        from scaks.models.micro_kinetic_model import MicroKineticModel
        env.close_handlers()
        self.m = MicroKineticModel(setup_dict=self.setup)
        self.loaded = d["e"]
        self.load(d["e"])
        self.m.solver.get_data()
        self.out = []
        self.seen = []          # calls of the registered analyses
        self.config = ()

    def load(self, e):
        ga, dg = steady.energies(e, self.k)
        self.passed_load = {"Ga": ga, "dG": dg}
        self.m.parser.parse_data(filename="no-such-file.py", energy_data=self.passed_load)

    def cvgs(self):
        return [0.31, 0.17, 0.08, 0.11][:self.n]

    def do(self, op):
        m, s = self.m, self.m.solver
        e1 = steady.rel("weak", self.k)
        c = list(self.cvgs())
        r = None
        # the answer of a search goes on to depend on where the last one ended, unless it starts from c
        if op == "rc":
            r = s.get_rate_constants()
        elif op == "rc1":
            r = s.get_rate_constants(relative_energies=e1)
        elif op == "rates":
            r = s.get_rates(cvgs_tuple=c)
        elif op == "rates1":
            r = s.get_rates(cvgs_tuple=c, relative_energies=e1)
        elif op == "net":
            r = s.get_net_rates(cvgs_tuple=c)
        elif op == "tof":
            r = s.get_tof(cvgs=c)
        elif op == "dtheta":
            r = s.steady_state_function(c)
        elif op == "jac":
            r = s.analytical_jacobian(c)
        elif op == "jac1":
            r = s.analytical_jacobian(c, relative_energies=e1)
        elif op == "resid":
            r = s.get_residual(c)
        elif op == "sym":
            s.get_data_symbols()
            r = [s.get_rate_constants_by_sym(), s.get_rates_by_sym(c)]
        elif op == "symjac":
            s.get_data_symbols()
            r = s.analytical_jacobian_by_sym(c)
        elif op == "tst":
            r = [s.get_rxn_rates_TST(x, dict(m.relative_energies)) for x in m.rxn_expressions] + [s.get_kTST(0.7, m.temperature)]
        elif op == "exprs":
            r = [s.get_rate_expressions(), s.get_dtheta_dt_expressions(),
                 [s.poly_adsorbate_derivation(adsorbate_name=a, poly_expression=x) for a in m.adsorbate_names for x in s.get_dtheta_dt_expressions()]]
        elif op == "mats":
            r = [list(m.parser.get_stoichiometry_matrices())]
            if self.d["mech"] in ("er", "coox"):
                r.append(m.parser.get_total_rxn_equation())
        elif op == "corr":
            m.corrector = "ThermodynamicCorrector"
            r = [m.corrector.entropy_correction(g) for g in m.gas_names]
        elif op == "attrs":
            r = [repr(getattr(m, x)) for x in ("gas_names", "adsorbate_names", "liquid_names", "site_names", "transition_state_names", "rxn_expressions",
                                               "species_definitions", "temperature", "decimal_precision", "rootfinding", "tolerance", "archived_variables", "ref_energies",
                                               "perturbation_size", "max_rootfinding_iterations", "unitcell_area", "components", "has_relative_energy")]
            r.append(len(m.analysis))
        elif op in ("search", "search1"):
            del self.seen[:]
            if "hybrid" not in self.config:
                m.hybrid_method = None
            x = s.get_steady_state_cvgs(tuple(c), **({"relative_energies": e1} if op == "search1" else {}))
            r = [x, list(self.seen)]
        elif op == "ode":
            r = s.solve_ode(time_end=0.1, time_span=0.05, initial_cvgs=c)[-1]
        elif op == "xrc":
            m.hybrid_method = None
            x = s.get_steady_state_cvgs(tuple(c))
            r = None if x is None else s.get_single_XRC("CO2_g" if self.d["mech"] in ("er", "coox") else m.gas_names[0], epsilon=1e-5)
        elif op == "register":
            self.register()
            self.config = tuple(sorted(self.config + (op,)))
            r = len(m.analysis)
        elif op == "hybrid":
            self.hybrid()
            self.config = tuple(sorted(set(self.config) | {op}))
        elif op == "load":
            self.load("spont")
            self.loaded = "spont"
            r = dict(m.relative_energies)
        if op not in ("attrs", "load"):
            self.out.append(r)
        self.out += [e1, c]
        return r

    def register(self):
        from scaks.plugins.analysis import OnTheFlyAnalysis
        seen = self.seen

        class Watch(OnTheFlyAnalysis):
            interval = 1

            def setup(self, model, outer_counter):
                seen.append(("setup", outer_counter))

            def register_step(self, model, inner_counter, outer_counter):
                seen.append(("step", inner_counter, outer_counter))

            def finalize(self, model, outer_counter):
                seen.append(("finalize", outer_counter))
        self.m.analysis_register(Watch)

    def hybrid(self):
        left = [[0.29 / self.n] * self.n]
        seen = self.seen

        def guess(model, N):
            seen.append(("hybrid", N))
            if seen.count(("hybrid", N)) + N > 3:
                raise RuntimeError("enough")
            return tuple(left[0])
        self.m.hybrid_method_register(guess)

    def disturb(self):
        """Change everything that was returned by or passed to the model."""
        import numpy as np
        done = set()

        def go(x):
            if id(x) in done:
                return
            done.add(id(x))
            if isinstance(x, dict):
                for v in list(x.values()):
                    go(v)
                for k in list(x)[:1]:
                    x.pop(k)
                x["disturbed"] = 1
            elif isinstance(x, list):
                for v in list(x):
                    go(v)
                if x:
                    x[0] = 17.0
                x.append("disturbed")
            elif isinstance(x, tuple):
                for v in x:
                    go(v)
            elif isinstance(x, np.ndarray):
                try:
                    x[...] = 3
                except (ValueError, TypeError):
                    pass
            elif type(x).__name__ == "matrix":
                for i in range(x.rows):
                    for j in range(x.cols):
                        x[i, j] = 5
        for x in self.out:
            go(x)
        go(self.passed_load)
        go(self.setup)
        self.out = []


def call(model, op):
    """(what came out, as data)"""
    try:
        return ("value", canon(model.do(op)))
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])


def expected(spec, loaded, config, op, memo):
    key = (repr(sorted(spec.items())), loaded, config, op)
    if key not in memo:
        def alone():
            x = Model(dict(spec, e=loaded))
            for o in config:
                x.do(o)
            x.out = []
            return call(x, op)
        memo[key] = fork_call(alone)
    return memo[key]


def histories(c, memo, specs, sub):
    """Everything below one case, in one process."""
    first = c["first"]
    ops = OPS if c["part"] == "pairs" else (SMALL if c["tier"] == "quick" or c["part"] == "deepest" else CORE)
    depth = {"pairs": 2, "deep": 3, "deepest": 4}[c["part"]]
    for lazy in (False, True):
        for who in itertools.product((0, 1), repeat=depth - 1):
            for rest in itertools.product(ops, repeat=depth - 1):
                if c["tier"] == "quick" and SLOW & ({first} | set(rest)) and not {first, rest[0]} & set(SMALL):
                    continue
                seq = [(0, first)] + list(zip(who, rest))
                for dist in (False, True):
                    if dist == lazy and c.get("tier") != "thorough":
                        continue
                    one(seq, lazy, dist, memo, specs, sub, c)


def one(seq, lazy, dist, memo, specs, rec, c):
    models = [None, None]
    if not lazy:
        models = [Model(specs[0]), Model(specs[1])]
    for i, (w, op) in enumerate(seq):
        if models[w] is None:
            models[w] = Model(specs[w])
        x = models[w]
        before = x.config
        loaded = "spont" if op == "load" else x.loaded
        want = memo.get((repr(sorted(specs[w].items())), x.loaded, before, op))
        if want is None:
            rec.missing.append((w, x.loaded, before, op))
            return
        got = call(x, op)
        rec.step()
        rec.check(got == want, "depends on other calls",
                  lambda: "pair %s (%r, %r), models built %s%s: calls %r: call %d gives %s, alone it gives %s" % (
                      c["pair"], specs[0], specs[1], "when needed" if lazy else "first", ", results disturbed after every call" if dist else "", seq, i, brief(got), brief(want)))
        if dist:
            for y in models:
                if y is not None:
                    y.disturb()
    rec.state((c["pair"], tuple(seq), lazy, dist))
    rec.trace()
    rec.outcome(got)


def brief(x):
    return repr(x)[:600]


class Sub(core.Recorder):
    def __init__(self, known):
        core.Recorder.__init__(self, known)
        self.missing = []
        self.violation = None


def run_case(c, rec):
    specs = VARIANTS[c["pair"]]
    memo = {}
    ops = OPS if c["part"] == "pairs" else (SMALL if c["tier"] == "quick" or c["part"] == "deepest" else CORE)
    ops = sorted(set(ops) | {c["first"]})
    depth = {"pairs": 2, "deep": 3, "deepest": 4}[c["part"]]
    # the references, for every configuration a model can be in before a call
    for w in (0, 1):
        now = {((), dict(BASE, **specs[w])["e"])}
        for i in range(depth):
            for config, loaded in sorted(now):
                for op in ops if i else [c["first"]] if w == 0 else []:
                    expected(specs[w], loaded, config, op, memo)
            new = set()
            for config, loaded in now:
                for op in ops if i else [c["first"]] if w == 0 else []:
                    new.add((tuple(sorted(config + (op,))) if op == "register" else tuple(sorted(set(config) | {op})) if op == "hybrid" else config,
                             "spont" if op == "load" else loaded))
            now |= new
    rec.count("reference processes", len(memo))

    def explore():
        sub = Sub(rec.known)
        try:
            histories(c, memo, specs, sub)
        except core.CaseViolation as e:
            sub.violation = (e.key, e.msg)
        return sub
    sub = fork_call(explore)
    rec.states |= sub.states
    rec.outcomes |= sub.outcomes
    rec.transitions += sub.transitions
    rec.traces += sub.traces
    rec.known_hits |= sub.known_hits
    if sub.violation:
        rec.fail(*sub.violation)
    if sub.missing:
        raise core.InfraError("no reference for %r" % (sub.missing[:3],))
    rec.sample(dict(c, set_ups=specs))
