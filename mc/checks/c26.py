"""C26: expansion of process definitions."""
import copy
import itertools
from .. import ref, kmc

PROPERTY = "C26"
TECHNIQUE = ("bounded exhaustive exploration: all process definitions over basis sites x coordinate sets x flags, alone and in sequences, under all "
             "orders of asking for events, names and running, on the real solver over a recording engine; compared with the definition of the expansion")
RULE = "a state is (definitions, what was asked for so far); a transition one question asked"
ASSUMPTIONS = ["the events that are counted are those that are not fast, numbered in the order of the event list",
               "the order of the events of one definition is free as long as the names follow it"]
COORDS = {1: [[[0.0, 0.0, 0.0], [0.5, 0.0, 0.0]]], 2: [[[0.0, 0.0, 0.0], [0.5, 0.0, 0.0]], [[0.0, 0.0, 0.0], [-0.5, 0.0, 0.0]]],
          3: [[[0.0, 0.0, 0.0], [0.0, 0.5, 0.0]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.0]], [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]]]}
ELEM = [(["V", "V"], ["C", "V"]), (["C", "O_s"], ["V", "V"]), (["*", "C"], ["C", "*"])]
FLAGS = [{}, dict(fast=True), dict(fast=True, redist=True, redist_species="C"), dict(redist=True, redist_species="O_s"), dict(fast=False, redist=False, redist_species=None)]
ASK = ["processes", "mapping", "get", "run"]


def definition(r, e, basis, k, fl):
    d = dict(reaction=kmc.RXNS[r], coordinates_group=copy.deepcopy(COORDS[k]), elements_before=list(ELEM[e][0]), elements_after=list(ELEM[e][1]), basis_sites=list(basis))
    d.update(FLAGS[fl])
    return d


def singles():
    return [(r, e, b, k, fl) for r in range(4) for e in range(3) for b in ((0,), (1,), (0, 1), (1, 0, 2)) for k in COORDS for fl in range(len(FLAGS))]


def small():
    return [(0, 0, (0,), 1, 0), (1, 1, (0, 1), 2, 0), (2, 1, (1,), 1, 1), (3, 2, (0,), 2, 2), (0, 0, (1,), 1, 3), (2, 1, (0,), 1, 0), (3, 0, (0,), 1, 4)]


def bounds(tier):
    return dict(definitions=len(singles()), sequences="all ordered pairs of %d definitions with each of %d, all ordered triples of the latter" % (len(singles()) if tier != "quick" else 60, len(small())),
                questions="all sequences of up to %d of %r" % (3 if tier == "quick" else 4, ASK), algorithms=["TST", "CT"])


def cases(tier):
    s = singles()
    n = 3 if tier == "quick" else 4
    out = [dict(defs=[[x] for x in s[i:i + 12]], n=2, algo=a) for i in range(0, len(s), 12) for a in ("TST", "CT")]
    out += [dict(defs=[[a, b] for b in small()] + [[b, a] for b in small()], n=2, algo="TST") for a in (s if tier != "quick" else s[::12])]
    out += [dict(defs=[[a, b, c] for c in small()], n=n, algo="TST") for a in small() for b in small()]
    return out + [dict(bad=True)]


def rates(m, r, algo):
    text = kmc.RXNS[r]
    if algo == "CT":
        return m.solver.get_rxn_rates_CT(text, m.relative_energies, include_pressure=True)
    import math
    rx = ref.rx(text)
    T = 450.0
    ga, dg = kmc.GA[r], kmc.DG[r]
    if ga == 0 and dg > 0:
        ga = dg
    out = []
    for st, e in ((rx.IS, ga), (rx.FS, ga - dg)):
        k = ref.KB_EV * T / ref.H_EV * math.exp(-e / (ref.KB_EV * T))
        for t in st:
            if t.kind() == "gas":
                k *= kmc.P[t.name()] ** t.n
        out.append(k)
    return out


def expected(m, defs, algo):
    """[(key, name or None)]"""
    out = []
    for r, e, basis, k, fl in defs:
        rf, rr = rates(m, r, algo)
        f = FLAGS[fl]
        fast, redist = bool(f.get("fast")), bool(f.get("redist"))
        for b in basis:
            for c in COORDS[k]:
                out.append((key(c, ELEM[e][0], ELEM[e][1], b, rf, fast, redist, f.get("redist_species")), None if fast else kmc.RXNS[r] + "(->)"))
                if not redist:
                    out.append((key(c, ELEM[e][1], ELEM[e][0], b, rr, fast, False, None), None if fast else kmc.RXNS[r] + "(<-)"))
    return out


def key(c, a, b, basis, rate, fast, redist, species):
    return (repr([[float(x) for x in p] for p in c]), tuple(a), tuple(b), basis, "%.9e" % float(rate), fast, redist, species)


def real(p):
    k = p.kwargs
    assert len(k["basis_sites"]) == 1, k
    return key(k["coordinates"], k["elements_before"], k["elements_after"], k["basis_sites"][0], k["rate_constant"], bool(k["fast"]), bool(k["redist"]), k["redist_species"])


def run_case(c, rec):
    if c.get("bad"):
        return refused(rec)
    from KMCLib import KMCLatticeModel
    for defs in c["defs"]:
        defs = [(r, e, tuple(b), k, fl) for r, e, b, k, fl in defs]
        ds = [definition(*x) for x in defs]
        m0 = kmc.model(ds, rate_algo=c["algo"])
        want = expected(m0, defs, c["algo"])
        counted = sorted((k, n) for k, n in want if n)
        for path in itertools.product(ASK, repeat=c["n"]):
            m = kmc.model(ds, rate_algo=c["algo"])
            for i, q in enumerate(path):
                what = lambda: "%r; asked for %r" % (ds, path[:i + 1])
                names = None
                if q == "processes":
                    events = m.solver.processes
                elif q == "get":
                    events = m.solver.get_processes()
                elif q == "mapping":
                    events, names = None, m.solver.process_mapping
                else:
                    n = len(KMCLatticeModel.runs)
                    m.run(scripting=False)
                    rec.check(len(KMCLatticeModel.runs) == n + 1, "run", what)
                    lattice, _ = KMCLatticeModel.runs.pop()
                    events = lattice.kwargs["interactions"].kwargs["processes"]
                    rec.check([real(p) for p in m.processes] == [real(p) for p in events], "events of the model", what)
                    rec.check(list(m.process_mapping) == list(m.solver.process_mapping), "names of the model", what)
                rec.step()
                rec.state((repr(defs), c["algo"], path[:i + 1]))
                if events is not None:
                    got = [real(p) for p in events]
                    rec.check(sorted(got, key=repr) == sorted((k for k, _ in want), key=repr), "events", lambda: "%s: %d events, expected %d:\n%s\nexpected\n%s" % (
                        what(), len(got), len(want), "\n".join(map(repr, sorted(got, key=repr))), "\n".join(repr(k) for k, _ in sorted(want, key=repr))))
                if events is None or i == len(path) - 1:
                    names = list(m.solver.process_mapping)
                    evs = [real(p) for p in m.solver.processes]
                    slow = [e for e in evs if not e[5]]
                    rec.check(len(names) == len(slow), "number of names", lambda: "%s: %d names for %d counted events: %r" % (what(), len(names), len(slow), names))
                    rec.check(sorted(zip(slow, names), key=repr) == sorted(counted, key=repr), "names", lambda: "%s: names %r, events %r" % (what(), names, slow))
            rec.trace()
        rec.check(m.process_dicts == ds, "definitions changed", lambda: "%r, now %r" % (ds, m.process_dicts))
    rec.sample(dict(definitions=defs, events=len(want)))


def refused(rec):
    good = (1, 1, (0, 1), 2, 0)
    for key_ in ("elements_before", "elements_after"):
        for i in range(2):
            for bad in ("X", "", "o_s", "V "):
                d = definition(*good)
                d[key_][i] = bad
                refuse([d], rec)
                refuse([definition(*good), d], rec)
    for bad in ("CO_g + *_t <-> CO_t", "CO_g + *_b -> CO_b", "", "CO_g+*_t->CO_t"):
        d = definition(*good)
        d["reaction"] = bad
        refuse([d], rec)
        refuse([d, definition(*good)], rec)
    for k in ("reaction", "coordinates_group", "elements_before", "elements_after", "basis_sites"):
        d = definition(*good)
        del d[k]
        refuse([d], rec)
        refuse([definition(*good), d], rec)


def refuse(ds, rec):
    rec.step()
    rec.state(repr(ds))
    try:
        n = kmc.model(ds).solver.processes
    except Exception:
        rec.count("refused")
        return
    rec.fail("malformed accepted", "%r accepted: %d events" % (ds, len(n)))
