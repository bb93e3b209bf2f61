"""C03: reversal."""
import itertools
import re
import mpmath
from .. import ref, build, mechs, kin

PROPERTY = "C03"
TECHNIQUE = ("bounded exhaustive exploration: all reactions over the term alphabets reversed once and twice on the real "
             "parser; every mechanism of a set with every subset of its steps reversed (energies exchanged) compared, "
             "on the real solver, with the original at a grid of coverages")
RULE = "a state is a reaction or a (mechanism, set of reversed steps, condition, coverages)"
ASSUMPTIONS = ["the typeset form gives coefficient, formula and site type of every term"]


# molecules whose notation has two-digit numbers, two-letter elements, repeated groups
LARGE = ["H", "He", "O2", "Cl2", "C10", "C2H4", "C4H10", "C12H26", "CH3OH", "COOH", "NaCl", "C10Br12", "H3C"]
TSL = {"C4H10": "C2H5-C2H5", "C12H26": "C11H13-CH13", "CH3OH": "CH3-OH", "COOH": "CO-OH", "NaCl": "Na-Cl", "C10Br12": "C10-Br-Br11", "C2H4": "H-CC-H3", "H3C": "H3-C"}


def large(tier):
    out = []
    for m in LARGE:
        for n in (1, 2, 9, 10, 12):
            for k in (1, 2, 11):
                c = lambda x: str(x) if x != 1 else ""
                a, b = "%s%s_g + %s*_s" % (c(n), m, c(n * k)), "%s%s_%ss" % (c(n), m, c(k))
                mid = " <-> %s%s_%ss" % (c(n), TSL[m], c(k)) if m in TSL else ""
                out.append("%s%s -> %s" % (a, mid, b))
                out.append("%s%s -> %s" % (b, mid, a))
                out.append("%s -> %s%s_l + %s*_s" % (b, c(n), m, c(n * k)))
    return out


def bounds(tier):
    return dict(reactions=len(kin.singles(tier)) + len(large(tier)), mechanisms=sum(len(c["ms"]) for c in cases(tier) if c["part"] == "kin"), subsets="all, up to 32 per mechanism")


def cases(tier):
    one = kin.singles(tier)
    out = [dict(part="text", ts=one[i:i + 12]) for i in range(0, len(one), 12)]
    big = large(tier)
    out += [dict(part="text", ts=big[i:i + 24]) for i in range(0, len(big), 24)]
    two = kin.pairs("quick")[:: (3 if tier == "quick" else 1)]
    out += [dict(part="kin", ms=[[t] for t in one[i:i + 6]], tier=tier) for i in range(0, len(one), 6)]
    out += [dict(part="kin", ms=two[i:i + 2], tier=tier) for i in range(0, len(two), 2)]
    out += [dict(part="kin", ms=[kin.BIG[k]], tier=tier) for k in sorted(kin.BIG)]
    return out


def shape(states):
    return [[(t.stoichiometry(), t.species(), t.nsite(), t.site()) for t in st] for st in states]


def want(r):
    return [[(t.n, t.species(), t.nsite, t.site) for t in st] for st in r.states]


def tex(r):
    s = []
    for st in r.states:
        x = []
        for t in st:
            if t.sp == "*":
                body = "*"
            else:
                body = "-".join("".join(e + ("_{%d}" % c if c != 1 else "") for e, c in fr) for fr in t.sp)
            x.append((str(t.n) if t.n != 1 else "") + body + "(" + t.site + ")")
        s.append(x)
    return s


def texparse(s):
    states = re.split(r"\s*\\(?:leftrightarrow|rightarrow)\s*", s)
    return [[re.sub(r"_\{(\d+)\}", r"_{\1}", t.strip()) for t in st.split(" + ")] for st in states]


def text(c, rec):
    from scaks.parsers.rxn_parser import RxnEquation
    for t in c["ts"]:
        r = ref.rx(t)
        # every arrangement of spaces must survive reversal as well
        for sep, arrow in ((" + ", (" -> ", " <-> ")), ("+", ("->", "<->")), ("  +  ", ("  ->  ", " <->"))):
            s = r.text(sep, arrow)
            q = RxnEquation(s)
            v = q.revert()
            w = v.revert()
            rec.step(2)
            rec.state(s)
            rec.trace()
            rec.check(shape(v.to_formula_list()) == want(r)[::-1], "reverse", "%r reversed: %r" % (s, v.rxn_equation()))
            rec.check(shape(w.to_formula_list()) == want(r), "twice", "%r reversed twice: %r" % (s, w.rxn_equation()))
            rec.check(shape(q.to_formula_list()) == want(r), "original", "%r changed by being reversed" % (s,))
            rec.check(v.check_conservation() and w.check_conservation(), "balance", "%r: reverse %r is unbalanced" % (s, v.rxn_equation()))
            gas = lambda st: sorted((x.n, x.name()) for x in st if x.kind() == "gas")
            got = lambda l: sorted((x.stoichiometry(), x.species_site()) for x in l)
            rec.check(got(q.adsorption_gases()) == gas(r.IS), "adsorbed", "%r adsorbs %r" % (s, got(q.adsorption_gases())))
            rec.check(got(q.desorption_gases()) == gas(r.FS), "desorbed", "%r desorbs %r" % (s, got(q.desorption_gases())))
            rec.check(got(v.adsorption_gases()) == gas(r.FS), "adsorbed by reverse", "reverse of %r adsorbs %r" % (s, got(v.adsorption_gases())))
            rec.check(got(v.desorption_gases()) == gas(r.IS), "desorbed by reverse", "reverse of %r desorbs %r" % (s, got(v.desorption_gases())))
            rec.check(texparse(q.texen()) == tex(r), "typeset", "%r typeset as %r" % (s, q.texen()))
            rec.check(texparse(v.texen()) == tex(r)[::-1], "typeset reverse", "reverse of %r typeset as %r" % (s, v.texen()))
            rec.outcome(v.rxn_equation())
    # unbalanced reactions stay unbalanced
    for t in c["ts"][:4]:
        r = ref.rx(t)
        for bad in (t + " + H2_g", "*_s + " + t):
            from scaks.parsers.rxn_parser import RxnEquation
            for q in (RxnEquation(bad), RxnEquation(bad).revert()):
                rec.step()
                try:
                    q.check_conservation()
                except Exception:
                    continue
                rec.fail("balance lost", "%r accepted" % (q.rxn_equation(),))
    rec.sample(dict(reaction=s, reverse=v.rxn_equation()))


def rev_energies(ga, dg, mask):
    g, d = [], []
    for i in range(len(ga)):
        if mask >> i & 1:
            g.append(ga[i] - dg[i])
            d.append(-dg[i])
        else:
            g.append(ga[i])
            d.append(dg[i])
    return g, d


def kinetics(c, rec):
    for mech, cond, sets in kin.models(dict(c, tier="quick")):
        n = len(mech.rxns)
        if len(sets) > 6:
            sets = sets[:: max(1, len(sets) // 6)]
        m = kin.real(mech, cond)
        base = []
        kf, kr = m.solver.get_rate_constants()
        for th in sets:
            s = m.solver
            base.append((s.get_rates(th), s.get_tof(th), s.steady_state_function(th) if mech.ads else ()))
        masks = list(range(1, 2 ** n))
        if len(masks) > 31:
            masks = masks[:: len(masks) // 31 + 1] + [2 ** n - 1]
        for mask in masks:
            rs = [r.rev() if mask >> i & 1 else r for i, r in enumerate(mech.rxns)]
            texts = [r.text() for r in rs]
            if len(set(texts)) != len(texts):
                continue
            mech2 = ref.Mech(rs)
            p, q, tot = kin.conditions(mech, cond)
            ga, dg = kin.energies(n)
            m2 = build.mkm(mech2, p=p, c=q, totals=tot, T=cond["T"])
            m2.parser.parse_data(filename="none", energy_data=dict(zip(("Ga", "dG"), rev_energies(ga, dg, mask))))
            rec.check(list(m2.adsorbate_names) == list(m.adsorbate_names) and list(m2.gas_names) == list(m.gas_names),
                      "species", "%r: reversal changes the species lists" % (texts,))
            s = m2.solver
            for th, ((rf, rr), tof, dt) in zip(sets, base):
                act = kin.activity(mech, cond, th)
                _, _, ef, er = kin.rates(mech, kf, kr, act)
                # exchanged barriers are rounded in double precision
                ef = [e + 1e-11 * abs(x) for e, x in zip(ef, rf)]
                er = [e + 1e-11 * abs(x) for e, x in zip(er, rr)]
                f2, r2 = s.get_rates(th)
                rec.step()
                for i in range(n):
                    a, b = (r2[i], f2[i]) if mask >> i & 1 else (f2[i], r2[i])
                    kin.same(rec, a, rf[i], "exchanged forward rate, reversed %d" % mask, mech, cond, th, i, ef[i])
                    kin.same(rec, b, rr[i], "exchanged reverse rate, reversed %d" % mask, mech, cond, th, i, er[i])
                tol = sum(ef + er) * 24
                for j, x in enumerate(s.get_tof(th)[:len(mech.gas)]):
                    kin.same(rec, x, tof[j], "turnover, reversed %d" % mask, mech, cond, th, j, tol)
                if mech.ads:
                    for j, x in enumerate(s.steady_state_function(th)):
                        kin.same(rec, x, dt[j], "d/dt, reversed %d" % mask, mech, cond, th, j, tol)
                rec.state((tuple(texts), kin.ckey(cond), tuple(map(str, th))))
                rec.trace()
                rec.outcome(tuple(mpmath.nstr(mpmath.mpf(x), 12) for x in tof))
        rec.sample(dict(mechanism=mech.texts(), reversed=texts if n else []))


def run_case(c, rec):
    (text if c["part"] == "text" else kinetics)(c, rec)
