"""C39: a set-up in a file and in memory."""
import itertools
import os
from .. import ref, build, steady, env, kin
from .c19 import MICRO, KMC, DEFAULTS, good, same

PROPERTY = "C39"
TECHNIQUE = ("bounded exhaustive exploration: every parameter with every value of a menu, all ordered pairs of parameters and all orders of a complete "
             "set-up are written as a set-up file in every style of a list of styles and given in memory; both real models are compared parameter by "
             "parameter, species by species, and by the derivatives and rates they calculate")
RULE = "a state is (model class, set-up, style); a transition one construction"
ASSUMPTIONS = ["a set-up file is executed as Python; functions in it do not use its own variables"]
CASE_LIMIT = 800

LITERALS = [1, 0, -3, 20, True, False, 2.5, -0.5, 0.0, 1.0, 1e-30, 1e300, "", "abc", "right", "left", "MDNewton", "ConstrainedNewton", "mpmath", "MT", "MINSTD", "RandomDistributor", "ProcessRandomDistributor",
            [], (), [1], [1, 2, 3], (4, 5, 6), [1.0, 0.5], (0.25,), ["a"], ["rates", "tofs"], ("a", "b"), [True, False, True], ["CoveragesAnalysis"], ["TOFAnalysis", "EventAnalysis"],
            {}, {"a": -1.5}, [[1.0, 2.0, 3.0]], [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0]], [[1, 10, 2]], [2, (0, 4, 2)]]
BAD = [None, "no such thing", 1j, [None]]
CLASSES = {"micro": MICRO, "kmc": KMC}
SKIP = ("setup_file",)
STYLES = ["plain", "reversed", "comments", "helpers before", "helpers after", "imports", "computed", "reassigned", "windows", "path", "absolute path"]
HELPERS = ["T = 77.0", "pressure = 3.0", "Temperature = 1.0", "temperatures = [1.0]", "_tmp = (1, 2)", "def f(x):\n    return 2*x", "class Setup(object):\n    temperature = 1.0",
           "for i in range(3):\n    j = i", "solvers = 'none'", "Parser = None", "rxn_expression = 'A_g -> B_g'", "decimal = 3"]
BASE = dict(rxn_expressions=["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"], parser="RelativeEnergyParser",
            species_definitions={"CO_g": {"pressure": 0.5}, "O2_g": {"pressure": 0.25}, "CO2_g": {"pressure": 0.125}, "*_s": {"site_name": "111", "type": "site", "total": 0.75}})
MORE = dict(temperature=451.5, solver="SteadyStateSolver", corrector="ThermodynamicCorrector")


def bounds(tier):
    return dict(micro_parameters=sorted(MICRO), kmc_parameters=sorted(KMC), values=len(LITERALS), styles=STYLES, helpers=len(HELPERS),
                pairs="all ordered pairs of parameters", orders="all orders of a set-up of seven entries (thorough) or six")


def cases(tier):
    out = []
    for cls in sorted(CLASSES):
        for n in sorted(CLASSES[cls]):
            if n not in SKIP:
                out.append(dict(k="one", cls=cls, name=n, tier=tier))
                out.append(dict(k="two", cls=cls, name=n, tier=tier))
    for first in sorted(list(BASE) + list(MORE)):
        out.append(dict(k="order", first=first, tier=tier))
    out.append(dict(k="which"))
    out.append(dict(k="helpers"))
    return out


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.models.kmc_model, scaks.solvers.steady_state_solver


def text(items, style):
    """A set-up file; items: [(name, value)]."""
    items = list(items)
    if style == "reversed":
        items.reverse()
    if style == "computed":
        out = []
        for n, v in items:
            if type(v) is float and v == v and abs(v) < 1e300:
                out.append("%s = %r + %r" % (n, v, 0.0))
            elif type(v) is list:
                out.append("%s = []\nfor item in %r:\n    %s.append(item)" % (n, v, n))
            elif type(v) is dict:
                out.append("%s = dict(%r)" % (n, v))
            else:
                out.append("%s = %r" % (n, v))
        return "\n".join(out) + "\n"
    lines = ["%s = %r" % x for x in items]
    if style == "comments":
        lines = ["# temperature = 1.0", '"""A set-up.\nsolver = 3\n"""'] + [x for l in lines for x in (l + "   # a remark = 3", "", "#----")]
    if style == "helpers before":
        lines = HELPERS + lines
    if style == "helpers after":
        lines = lines + HELPERS
    if style == "imports":
        lines = ["import os", "from math import pi, sqrt as root", "import os.path as path"] + lines
    if style == "reassigned":
        lines = ["%s = None" % n for n, v in items] + lines
    return ("\r\n" if style == "windows" else "\n").join(lines) + "\n"


def classes():
    from scaks.models.micro_kinetic_model import MicroKineticModel
    from scaks.models.kmc_model import KMCModel
    return {"micro": MicroKineticModel, "kmc": KMCModel}


def construct(cls, **kw):
    env.close_handlers()
    try:
        return classes()[cls](**kw), None
    except Exception as e:
        return None, e


def write(items, style):
    p = "setup.mkm"
    if style == "path":
        os.path.isdir("sub") or os.mkdir("sub")
        p = "./sub/a set-up.py"
    if style == "absolute path":
        p = os.path.abspath("other.mkm")
    with open(p, "w", newline="") as f:
        f.write(text(items, style))
    return p


def compare(rec, what, cls, a, b, path, content, expect):
    for n in sorted(CLASSES[cls]):
        if n in SKIP:
            continue
        va, vb = getattr(a, n), getattr(b, n)
        rec.check(same(va, vb), "parameter", lambda: "%s: %s is %r from the file, %r from memory" % (what(), n, vb, va))
        if n in expect:
            rec.check(same(vb, expect[n]), "parameter", lambda: "%s: %s is %r, the file says %r" % (what(), n, vb, expect[n]))
        else:
            rec.check(same(vb, DEFAULTS[n]), "parameter", lambda: "%s: %s is %r, the default is %r" % (what(), n, vb, DEFAULTS[n]))
    for n in ("rxn_expressions", "gas_names", "liquid_names", "adsorbate_names", "site_names", "transition_state_names", "rate_algo"):
        rec.check(same(list(getattr(a, n)), list(getattr(b, n))), "species", lambda: "%s: %s is %r from the file, %r from memory" % (what(), n, getattr(b, n), getattr(a, n)))
    rec.check(same(a.species_definitions, b.species_definitions), "definitions", lambda: "%s: %r from the file, %r from memory" % (what(), b.species_definitions, a.species_definitions))
    rec.check(list(b.rxn_expressions) == BASE["rxn_expressions"] and b.setup_file == path and a.setup_file == "", "set-up", lambda: what())
    for n in ("parser", "solver", "corrector"):
        rec.check(type(getattr(a, n)) is type(getattr(b, n)), "component", lambda: "%s: %s" % (what(), n))
    rec.check(open(path, newline="").read() == content, "file changed", what)


def both(rec, cls, items, style, expect=None):
    d = dict(items)
    what = lambda: "%s, %s: %r" % (cls, style, {k: v for k, v in d.items() if k not in BASE})
    path = write(items, style)
    content = open(path, newline="").read()
    a, ea = construct(cls, setup_dict=dict(d))
    b, eb = construct(cls, setup_file=path)
    rec.step(2)
    rec.check((ea is None) == (eb is None), "accepted or refused", lambda: "%s: from memory %r, from the file %r" % (what(), ea, eb))
    if ea is None:
        compare(rec, what, cls, a, b, path, content, {k: v for k, v in d.items() if k in CLASSES[cls]} if expect is None else expect)
    rec.state((cls, repr(items), style))
    rec.trace()
    return a, b


def value(cls, name, tier):
    return [v for v in LITERALS if good(CLASSES[cls][name], v)]


def results(m):
    m.parser.parse_data(filename="none", energy_data={"Ga": [0.5, 0.8, 0.9], "dG": [-0.3, 0.1, -0.7]})
    m.solver.get_data()
    th = (0.125, 0.25)
    rf, rr = m.solver.get_rates(th)
    return [str(x) for x in rf + rr] + [str(x) for x in m.solver.steady_state_function(th)] + [str(x) for x in m.solver.get_tof(th)]


def run_case(c, rec):
    if c["k"] == "one":
        vals = value(c["cls"], c["name"], c["tier"])
        for v in vals + BAD:
            for style in STYLES if v in vals[:2] or c["tier"] == "thorough" else STYLES[:1]:
                if style == "computed" and v is None:
                    continue
                both(rec, c["cls"], list(BASE.items()) + [(c["name"], v)], style)
    elif c["k"] == "two":
        v = (value(c["cls"], c["name"], c["tier"]) or [None])[-1]
        for n in sorted(CLASSES[c["cls"]]):
            if n == c["name"] or n in SKIP:
                continue
            ws = value(c["cls"], n, c["tier"])
            for w in ws[-1:] if c["tier"] == "quick" else ws:
                both(rec, c["cls"], [(c["name"], v), (n, w)] + list(BASE.items()), "plain")
    elif c["k"] == "order":
        d = dict(BASE)
        d.update(MORE)
        d["decimal_precision"] = 30
        names = sorted(d)
        if c["tier"] == "quick":
            names = [n for n in names if n != "corrector" or c["first"] == n]
        names.remove(c["first"])
        want = None
        for p in itertools.permutations(names):
            items = [(n, d[n]) for n in (c["first"],) + p]
            if want is None or c["tier"] == "thorough" or hash_(p) % 6 == 0:
                a, b = both(rec, "micro", items, "plain")
                ra, rb = results(a), results(b)
                want = want or ra
                rec.check(ra == rb == want, "results", lambda: "order %r: %r and %r, expected %r" % ([n for n, v in items], ra, rb, want))
    elif c["k"] == "which":
        for cls in sorted(CLASSES):
            m, e = construct(cls)
            rec.check(isinstance(e, ValueError), "nothing given", lambda: "%s: %r" % (cls, e))
            m, e = construct(cls, setup_file="does not exist.mkm")
            rec.check(e is not None, "no file", lambda: "%s: a model from a file that does not exist" % cls)
            path = write(list(BASE.items()) + [("temperature", 333.0), ("active_ratio", 0.5)], "plain")
            m, e = construct(cls, setup_file=path, setup_dict=dict(BASE, temperature=444.0))
            rec.check(e is None and m.temperature == 444.0 and m.active_ratio == 1.0, "priority", lambda: "%s: with both, temperature %r, %r" % (cls, m and m.temperature, e))
            for k in BASE:
                items = [(n, v) for n, v in BASE.items() if n != k]
                a, ea = construct(cls, setup_dict=dict(items))
                b, eb = construct(cls, setup_file=write(items, "plain"))
                rec.check((ea is None) == (eb is None), "incomplete", lambda: "%s without %s: from memory %r, from the file %r" % (cls, k, ea, eb))
                rec.check(k != "parser" or ea is not None, "incomplete", lambda: "%s without %s was built" % (cls, k))
                rec.step(2)
            for bad in ("temperature = ", "temperature = 3 +", "no_such_name", "raise ValueError()", "temperature == 3", "  temperature = 3"):
                with open("bad.mkm", "w") as f:
                    f.write(text(BASE.items(), "plain") + bad + "\n")
                m, e = construct(cls, setup_file="bad.mkm")
                rec.check(e is not None, "broken file", lambda: "%s: a model from a file ending in %r" % (cls, bad))
                rec.step()
            rec.state(cls)
            rec.trace()
    else:
        for cls in sorted(CLASSES):
            for i, h in enumerate(HELPERS):
                name = h.split("=")[0].split("(")[0].split()[-1].strip() if not h.startswith("for") else "j"
                for pos in range(len(BASE) + 1):
                    lines = text(BASE.items(), "plain").strip("\n").split("\n")
                    lines.insert(pos, h)
                    with open("helped.mkm", "w") as f:
                        f.write("\n".join(lines) + "\n")
                    b, e = construct(cls, setup_file="helped.mkm")
                    rec.check(e is None, "helper", lambda: "%s with %r: %r" % (cls, h, e))
                    rec.check(not hasattr(b, name), "helper", lambda: "%s: %s became an attribute" % (cls, name))
                    a, _ = construct(cls, setup_dict=dict(BASE))
                    compare(rec, lambda: "%s with %r" % (cls, h), cls, a, b, "helped.mkm", open("helped.mkm").read(), {})
                    rec.step()
                    rec.state((cls, h, pos))
                    rec.trace()


def hash_(p):
    return sum(i * len(n) for i, n in enumerate(p))
