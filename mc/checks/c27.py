"""C27: recorded coverages."""
import itertools
from .. import kmc

PROPERTY = "C27"
TECHNIQUE = ("bounded exhaustive exploration: all histories of lattice configurations up to a length x all buffer sizes x positions of the empty species x site weights, played "
             "into the real analysis; the file it leaves is executed and compared with the history")
RULE = "a state is (history prefix, weights, species order); a trace one history played to the end with one buffer size"
ASSUMPTIONS = ["the engine calls set-up, one registration per recorded step, and finalisation, in this order",
               "the coverage of a species is the weighted number of sites holding it per unit cell; that of the empty site is what remains to one"]
DEF = dict(reaction=kmc.RXNS[0], coordinates_group=[[[0.0, 0.0, 0.0]]], elements_before=["V"], elements_after=["C"], basis_sites=[0])
ORDERS = [["V", "C", "O_s"], ["C", "V", "O_s"], ["O_s", "C", "V"], ["C", "O", "V", "O_s"]]
TIMES = [0.0, 0.1, 1 / 3.0, 2.5, 2.5000001, 1e3, 123456.789, 1e7, 1e7 + 1, 1e9]
TIME = [TIMES, [0.0, 0.0, 0.0, 1.5, 1.5, 2.0, 2.0, 2.0, 9.0, 9.0], [3.5] + [i + 3.5 for i in range(9)]]       # also records at the same instant
STEPS = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [0, 5, 10, 15, 20, 25, 30, 35, 40, 45], [100, 101, 103, 106, 110, 115, 121, 128, 136, 145]]
# (repetitions, basis sites, weights)
LAT = [((1, 1, 1), 1, [1.0]), ((2, 1, 1), 1, [1.0]), ((1, 1, 1), 2, [0.5, 0.5]), ((1, 1, 1), 2, [1.0, 0.5]), ((1, 1, 1), 2, [0.25, 0.0]), ((1, 1, 1), 3, [1 / 3.0, 1 / 3.0, 1 / 3.0]), ((2, 1, 1), 2, [0.5, 0.25]), ((3, 1, 1), 1, [0.7])]

# larger lattices, repeated in every direction, and twelve species
LARGE = [((1, 2, 1), 1, [1.0]), ((2, 2, 1), 2, [0.5, 0.25]), ((1, 2, 3), 3, [1 / 3.0, 0.5, 0.125]), ((4, 3, 1), 2, [0.5, 0.5]), ((11, 1, 2), 1, [0.9])]
TWELVE = ["CO", "C", "O", "O_s", "O_u", "CO2", "OH", "V", "H", "H2O", "O2", "CO_s"]
SCALES = [1.0, 1e-10]


def depth(n, tier):
    """number of registered steps for a lattice of n sites"""
    return {1: 6, 2: 2, 3: 2, 4: 1}[n] if tier == "quick" else {1: 9, 2: 4, 3: 2, 4: 2}[n]


def sites(l):
    r, b, w = LAT[l]
    return r[0] * r[1] * r[2] * b


def bounds(tier):
    return dict(lattices=[dict(repetitions=r, basis=b, weights=w, steps=depth(sites(i), tier)) for i, (r, b, w) in enumerate(LAT)], species_orders=len(ORDERS),
                buffers="1..steps+2 and the default (quick, two steps on three sites: in turn)", species=3,
                long=dict(lattices=LARGE, species=TWELVE, records=[2, 13, 40, 1100], buffers=[1, 2, 7, "default"], time_units=SCALES))


def cases(tier):
    return [dict(l=l, o=o, first=list(f), tier=tier) for l in range(len(LAT)) for o in range(len(ORDERS))
            for f in (itertools.product(["V", "C", "O_s"], repeat=min(2, sites(l))))] + [dict(par=1, l=l) for l in range(len(LAT))] + [
        dict(long=n, l=l, shift=k) for l in range(len(LARGE)) for n in (2, 13, 40) for k in range(4 if tier == "quick" else 12)] + [dict(long=1100, l=l, shift=0) for l in range(len(LARGE))]


def same(a, b):
    return type(a) is type(b) and a == b


def model(l, o):
    return make(LAT[l], ORDERS[o])


def make(lattice, order):
    r, b, w = lattice
    m = kmc.model([DEF], repetitions=r, basis_sites=[[i / 7.0, 0.0, 0.0] for i in range(b)], coverage_ratios=list(w), possible_element_types=list(order), analysis=["CoveragesAnalysis"])
    return m


def cov(types, l, order, table=LAT):
    r, b, w = table[l]
    cells = len(types) // b
    d = {s: sum(w[i % b] for i, t in enumerate(types) if t == s) / cells for s in order if s != "V"}
    d["V"] = 1.0 - sum(d.values())
    return [d[s] for s in order]


def run_case(c, rec):
    from KMCLib import KMCLatticeModel
    from scaks.solvers.kmc_plugins import CoveragesAnalysis
    if c.get("par"):
        m = model(c["l"], 1)
        n = sites(c["l"])
        recs = [(i, TIMES[i], kmc.Configuration([["V", "C", "O_s"][(i * j + i) % 3] for j in range(n)]), None) for i in range(5)]
        for size in range(1, 7):
            kmc.parallel(lambda: CoveragesAnalysis(m, filename="par.py", buffer_size=size), recs, rec, lambda: open("par.py").read(), lambda: "buffer %d" % size)
            rec.state((c["l"], size, "parallel"))
            rec.trace()
        return
    if c.get("long"):
        return long_(c, rec, CoveragesAnalysis)
    l, order, tier = c["l"], ORDERS[c["o"]], c["tier"]
    m = model(l, c["o"])
    n = sites(l)
    top = depth(n, tier)
    confs = list(itertools.product(["V", "C", "O_s"], repeat=n))
    starts = [x for x in confs if list(x[:len(c["first"])]) == c["first"]]
    k = 0
    for start in starts:
        for length in range(0, top + 1):
            for tail in itertools.product(confs, repeat=length):
                hist = (start,) + tail
                k += 1
                steps, times = STEPS[k % 3], TIME[k // 3 % 3]
                recs = [(steps[i], times[i], kmc.Configuration(list(t)), None) for i, t in enumerate(hist)]
                rec.state((l, c["o"], hist))
                want = [cov(t, l, order) for t in hist]
                # every buffer size for short histories, those around the length for the others
                for size in list(range(1, length + 3)) + [None]:
                    if size is None and k % 20 and length > 2:
                        continue
                    if n == 3 and length == 2 and tier == "quick" and size != (1 + k % 4 if k % 21 else None):
                        continue
                    what = lambda: "%r per cell, species %r, weights %r, history %r, steps %r, times %r, buffer %r" % (LAT[l][:2], order, LAT[l][2], hist, steps[:len(hist)], times[:len(hist)], size)
                    name = "cov.py"
                    if size is None:
                        # through a run of the model, with the default buffer
                        name = "auto_coverages.py"
                        KMCLatticeModel.history = staticmethod(lambda a: kmc.play(a, recs))
                        m.run(scripting=False)
                        KMCLatticeModel.history = None
                        KMCLatticeModel.runs.pop()
                    else:
                        kmc.play(CoveragesAnalysis(m, filename=name, buffer_size=size), recs)
                    env = kmc.execute(name, rec, what)
                    rec.step(len(hist) + 1)
                    rec.trace()
                    for v, w in (("times", times[:len(hist)]), ("steps", steps[:len(hist)]), ("possible_types", order)):
                        rec.check(env.get(v) == w, v, lambda: "%s: %s = %r, expected %r" % (what(), v, env.get(v), w))
                    got = env["coverages"]
                    rec.check(len(got) == len(order) and all(len(x) == len(hist) for x in got), "entries", lambda: "%s: %r" % (what(), got))
                    for i in range(len(hist)):
                        col = [x[i] for x in got]
                        rec.check(all(abs(x - y) < 1e-12 for x, y in zip(col, want[i])), "coverage", lambda: "%s: entry %d is %r, expected %r" % (what(), i, col, want[i]))
                        rec.check(abs(sum(col) - 1) < 1e-12, "sum", lambda: "%s: entry %d adds up to %r" % (what(), i, sum(col)))
                rec.outcome(tuple(tuple(round(x, 9) for x in w) for w in want))
    rec.sample(dict(lattice=LAT[l], history=hist, coverages=want))


def long_(c, rec, cls):
    from KMCLib import KMCLatticeModel
    lattice, k = LARGE[c["l"]], c["shift"]
    order = TWELVE[k % 12:] + TWELVE[:k % 12]
    m = make(lattice, order)
    n = lattice[0][0] * lattice[0][1] * lattice[0][2] * lattice[1]
    x = SCALES[k % 2]
    hist = [[order[(i * (j + 1) + j * j + i // 5 + k) % 12] if (i + j) % 4 else "V" for j in range(n)] for i in range(c["long"])]
    times = [3.5 * x + (i + i // 3) * x / 7 for i in range(len(hist))]
    steps = [(k % 3 + 1) * i for i in range(len(hist))]
    recs = [(s, t, kmc.Configuration(h), None) for s, t, h in zip(steps, times, hist)]
    want = [cov(h, c["l"], order, LARGE) for h in hist]
    for size in (1, 2, 7, None) if c["long"] < 100 else (7, None):
        what = lambda: "%r per cell, species %r, weights %r, %d records, time unit %r, buffer %r" % (lattice[:2], order, lattice[2], len(hist), x, size)
        name = "cov.py"
        if size is None:
            name = "auto_coverages.py"
            KMCLatticeModel.history = staticmethod(lambda a: kmc.play(a, recs))
            m.run(scripting=False)
            KMCLatticeModel.history = None
            KMCLatticeModel.runs.pop()
        else:
            kmc.play(cls(m, filename=name, buffer_size=size), recs)
        env = kmc.execute(name, rec, what)
        for v, w in (("times", times), ("steps", steps), ("possible_types", order)):
            rec.check(env.get(v) == w, v, lambda: "%s: %s = %r, expected %r" % (what(), v, env.get(v), w))
        got = env["coverages"]
        rec.check(len(got) == 12 and all(len(g) == len(hist) for g in got), "entries", lambda: "%s: %r" % (what(), got))
        for i in range(len(hist)):
            rec.check(all(abs(g[i] - y) < 1e-12 for g, y in zip(got, want[i])), "coverage", lambda: "%s: entry %d, %r, is %r, expected %r" % (what(), i, hist[i], [g[i] for g in got], want[i]))
        rec.state(("long", c["l"], k, len(hist), size))
        rec.step(len(recs) + 1)
        rec.trace()
    rec.sample(dict(lattice=lattice, records=len(hist), last=want[-1]))
