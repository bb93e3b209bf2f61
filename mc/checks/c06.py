"""C06: barriers and reaction energies from absolute energies."""
import itertools
from .. import ref, build, mechs, kin

PROPERTY = "C06"
TECHNIQUE = ("bounded exhaustive exploration: all mechanisms over term alphabets x all energy assignments from a small "
             "set on the real parser, against directly summed state energies; closed cycles sum to zero")
RULE = "a state is (mechanism, energy assignment); a transition one parse of the energies"
ASSUMPTIONS = ["energies compared to 1e-9 eV"]
VALS = [0.0, -1.25, 0.5]


def pool(tier):
    return mechs.singles(mechs.ALPHA, 3 if tier == "thorough" else 2, 2)


CYC = [["CO_g + *_s -> CO_s", "CO_s -> CO_g + *_s"],
       ["HCN_g + *_s -> HCN_s", "HCN_s -> HNC_s", "HNC_s -> HCN_g + *_s"],
       ["CO_s + *_t <-> C-O_s + *_t -> CO_t + *_s", "CO_t + *_s -> CO_s + *_t"],
       ["O2_g + 2*_s <-> O-O_2s -> 2O_s", "2O_s -> O2_s + *_s", "O2_s -> O2_g + *_s"],
       ["H2O_l + *_s -> H2O_s", "H2O_s + *_s <-> H-OH_2s -> H_s + OH_s", "H_s + OH_s -> H2O_l + 2*_s"]]


def bounds(tier):
    return dict(one_step=len(pool(tier)), values=VALS, cycles=len(CYC), large="the 15 steps of kin.BIG['long'], in order and reversed, with all one- and two-species excitations")


def cases(tier):
    n = len(pool(tier))
    out = [dict(part="one", tier=tier, i=i) for i in range(0, n, 6)]
    P = mechs.EXTRA
    out += [dict(part="two", i=i) for i in range(len(P))]
    out += [dict(part="cyc", i=i) for i in range(len(CYC))]
    out += [dict(part="large", rev=r) for r in (False, True)]
    return out


def names(mech):
    return mech.gas + mech.liq + mech.ads + mech.ts + mech.site


def assignments(ns, cap=729):
    if 3 ** len(ns) <= cap:
        for v in itertools.product(VALS, repeat=len(ns)):
            yield dict(zip(ns, v))
    else:
        # all one- and two-species excitations over two backgrounds
        for bg in (0.25, -1.0):
            base = {n: bg + 0.125 * i for i, n in enumerate(ns)}
            yield dict(base)
            for a, b in itertools.combinations_with_replacement(ns, 2):
                for v in VALS[1:]:
                    d = dict(base)
                    d[a] += v
                    d[b] += 2 * v
                    yield d


def energies(r, ab):
    s = [sum(t.n * (ab[t.name()] if t.kind() != "site" else ab["*_" + t.site]) for t in st) for st in r.states]
    ts = s[1] if len(s) == 3 else max(s[0], s[-1])
    return ts - s[0], ts - s[-1], s[-1] - s[0]


def load(m, ab):
    with open("abs_in.py", "w") as f:
        f.write("absolute_energies = %r\n" % (ab,))
    m.parser.parse_data(filename="./abs_in.py")


def one(mech, m, ab, rec):
    load(m, ab)
    rec.step()
    rec.check(m.has_relative_energy and m.has_absolute_energy, "flags", "flags not set")
    rec.check(dict(m.absolute_energies) == ab, "absolute", "absolute energies %r, loaded %r" % (m.absolute_energies, ab))
    e = m.relative_energies
    for k in ("Gaf", "Gar", "dG"):
        rec.check(len(e[k]) == len(mech.rxns), "length", "%s has %d entries" % (k, len(e[k])))
    for i, r in enumerate(mech.rxns):
        w = energies(r, ab)
        g = (e["Gaf"][i], e["Gar"][i], e["dG"][i])
        for k, x, y in zip(("Gaf", "Gar", "dG"), g, w):
            rec.check(abs(x - y) < 1e-9, k, "%s of %r with %r is %r, expected %r" % (k, r.text(), ab, x, y))
        rec.check(abs(g[0] - g[1] - g[2]) < 1e-9, "consistency", "%r: Gaf-Gar != dG: %r" % (r.text(), g))
        if len(r.states) == 2:
            rec.check(min(g[0], g[1]) > -1e-12 and min(abs(g[0]), abs(g[1])) < 1e-9, "barrierless", "%r: %r" % (r.text(), g))
    rec.trace()
    return e


def run_case(c, rec):
    if c["part"] == "one":
        for t in pool(c["tier"])[c["i"]:c["i"] + 6]:
            mech = ref.Mech([t])
            m = build.mkm(mech, solver=None, get_data=False, parser="AbsoluteEnergyParser")
            for ab in assignments(names(mech), 729 if c["tier"] == "thorough" else 243):
                if rec.state((t, sorted(ab.items()))):
                    e = one(mech, m, ab, rec)
                    rec.outcome((e["Gaf"][0] > 0, e["Gar"][0] > 0, e["dG"][0] > 0))
            rec.sample(dict(step=t, energies=ab, Gaf=e["Gaf"], Gar=e["Gar"], dG=e["dG"]))
    elif c["part"] == "large":
        texts = list(kin.BIG["long"])
        mech = ref.Mech(texts[::-1] if c["rev"] else texts)
        m = build.mkm(mech, solver=None, get_data=False, parser="AbsoluteEnergyParser")
        for ab in assignments(names(mech)):
            rec.state((c["rev"], sorted(ab.items())))
            one(mech, m, ab, rec)
    elif c["part"] == "two":
        P = mechs.EXTRA
        for b in P:
            if b == P[c["i"]]:
                continue
            mech = ref.Mech([P[c["i"]], b])
            m = build.mkm(mech, solver=None, get_data=False, parser="AbsoluteEnergyParser")
            ns = names(mech)
            for k, bg in enumerate((0.25, -0.5)):
                ab = {n: bg + 0.125 * i * (1 if k else -1) ** i for i, n in enumerate(ns)}
                rec.state((P[c["i"]], b, k))
                one(mech, m, ab, rec)
    else:
        for perm in itertools.permutations(CYC[c["i"]]):
            mech = ref.Mech(list(perm))
            m = build.mkm(mech, solver=None, get_data=False, parser="AbsoluteEnergyParser")
            for ab in assignments(names(mech), 243):
                rec.state((perm, sorted(ab.items())))
                e = one(mech, m, ab, rec)
                rec.check(abs(sum(e["dG"])) < 1e-9, "cycle", "closed cycle %r: energies add up to %r" % (perm, sum(e["dG"])))
