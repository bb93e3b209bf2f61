"""C02: exactly the balanced reactions are accepted."""
import itertools
from .. import ref, build

PROPERTY = "C02"
TECHNIQUE = ("bounded exhaustive exploration of all pairs and triples of states over a term alphabet on the "
             "real conservation check and model construction, against independently counted atoms and sites")
RULE = "a state is one distinct reaction text; a transition one acceptance decision taken by the real code"
ASSUMPTIONS = ["a refusal is any raised exception; acceptance is a returned true value / a constructed model"]

A1 = ["CO_g", "*_s", "*_t", "O_s", "CO_s", "CO-O_2s", "O2_2s", "Cl_s", "CCl_t", "H2O_l", "C_s"]
A2 = ["CO_g", "*_s", "*_t", "O_s", "CO_s", "C-O_2s", "O2_2s", "Cl2_g", "Cl_s", "CO2_l", "O_t"]


def states(alpha, coefs, repeated=True):
    out = []
    for t in alpha:
        for n in coefs:
            out.append(((n, t),))
    comb = itertools.combinations_with_replacement if repeated else itertools.combinations
    for a, b in comb(alpha, 2):
        for n in coefs:
            for m in coefs:
                out.append(((n, a), (m, b)))
    return out


def text(st):
    return " + ".join((str(n) if n != 1 else "") + t for n, t in st)


def terms(st):
    return [ref.f((str(n) if n != 1 else "") + t) for n, t in st]


def conf(tier):
    if tier == "thorough":
        return [("pair", A1, (1, 2, 3)), ("pair", A2, (1, 2, 12)), ("triple", A2[:8], (1, 2)), ("model", A2, (1, 2))]
    return [("pair", A1, (1, 2)), ("pair", A2, (1, 2)), ("triple", A2[:5] + A2[6:7], (1, 2)), ("model", A2[:7], (1, 2))]


def bounds(tier):
    return dict((k + str(i), dict(terms=a, coefficients=c, states=len(states(a, c) if k != "triple" else tri(a, c))))
                for i, (k, a, c) in enumerate(conf(tier)))


def tri(alpha, coefs):
    return states(alpha, coefs, repeated=False)[:60]


def cases(tier):
    out = []
    for i, (k, a, c) in enumerate(conf(tier)):
        n = len(tri(a, c)) if k == "triple" else len(states(a, c))
        chunk = 4 if k != "triple" else 2
        for lo in range(0, n, chunk):
            out.append(dict(part=k, conf=i, tier=tier, lo=lo, hi=min(n, lo + chunk)))
    out.append(dict(part="formula"))
    out.append(dict(part="cat"))
    return out


def sig(st):
    t = terms(st)
    return (tuple(sorted(ref.state_elements(t).items())), tuple(sorted(ref.state_sites(t).items())))


def verdict(fn):
    try:
        return bool(fn())
    except Exception:
        return False


def run_case(c, rec):
    from scaks.parsers.rxn_parser import RxnEquation, ChemState, ChemFormula
    if c["part"] == "formula":
        fs = [ref.F(n, ref.sp(s), ns, x) for s in ["*", "CO", "C-O", "Cl", "O2", "O-O", "CO2"] for n in (1, 2)
              for ns in (1, 2) for x in ("s", "t")]
        for a in fs:
            for b in fs:
                rec.state((a.text(), b.text()))
                rec.step()
                want = a.elements() == b.elements() and a.sites() == b.sites()
                got = verdict(lambda: ChemFormula(a.text()).conserve(ChemFormula(b.text())))
                rec.check(got == want, "formula", "%s vs %s: conserve says %s, counted %s" % (a.text(), b.text(), got, want))
                rec.trace()
        return
    if c["part"] == "cat":
        # a mechanism is refused as a whole when any one step, at any position, is unbalanced
        good = ["CO_g + *_s -> CO_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"]
        bad = ["CO_g + *_s -> CO_t", "O2_g + *_s -> 2O_s", "O2_g + 2*_s <-> O-O_s -> 2O_s",
               "CO_s + O_s <-> CO-O2_2s -> CO2_g + 2*_s", "CO_s + O_s <-> CO-O_2s -> CO_g + 2*_s",
               "CO_g + *_s <-> CO_t -> CO_s"]
        pool = good + bad
        for k in (1, 2, 3):
            for sel in itertools.permutations(range(len(pool)), k):
                texts = [pool[i] for i in sel]
                want = all(i < len(good) for i in sel)
                rec.state(tuple(texts))
                rec.step()
                got = verdict(lambda: build.mkm(ref.Mech(texts), texts=texts, solver=None, get_data=False))
                rec.check(got == want, "mechanism", "mechanism %r: accepted=%s, balanced=%s" % (texts, got, want))
                rec.trace()
        return
    k, a, co = conf(c["tier"])[c["conf"]]
    sts = tri(a, co) if k == "triple" else states(a, co)
    sg = [sig(s) for s in sts]
    tx = [text(s) for s in sts]
    for i in range(c["lo"], c["hi"]):
        for j in range(len(sts)):
            if k == "triple":
                for m in range(len(sts)):
                    t = tx[i] + " <-> " + tx[j] + " -> " + tx[m]
                    want = sg[i] == sg[j] == sg[m]
                    rec.state(t)
                    rec.step()
                    got = verdict(lambda: RxnEquation(t).check_conservation())
                    if got != want:
                        rec.fail("triple", "%r: accepted=%s, balanced=%s" % (t, got, want))
                    rec.trace()
                    rec.outcome((got, sg[i] == sg[j], sg[j] == sg[m]))
                continue
            t = tx[i] + " -> " + tx[j]
            want = sg[i] == sg[j]
            rec.state((k, t))
            rec.step()
            got = verdict(lambda: RxnEquation(t).check_conservation())
            if got != want:
                rec.fail("pair", "%r: check accepted=%s, balanced=%s" % (t, got, want))
            if k == "pair":
                got = verdict(lambda: ChemState(tx[i]).conserve(ChemState(tx[j])))
                if got != want:
                    rec.fail("state", "%r: conserve=%s, balanced=%s" % (t, got, want))
            else:
                got = verdict(lambda: build.mkm(ref.Mech([ref.R(terms(sts[i]), terms(sts[j]))]), texts=[t],
                                                solver=None, get_data=False))
                if got != want:
                    rec.fail("model", "%r: model built=%s, balanced=%s" % (t, got, want))
            rec.trace()
            rec.outcome((got, sg[i][0] == sg[j][0], sg[i][1] == sg[j][1]))
            if want and i != j:
                rec.sample(dict(reaction=t, accepted=got))
                rec.count("balanced")
