"""C01: reaction text is read back as written; species lists are exact."""
import itertools
from .. import ref, build

PROPERTY = "C01"
TECHNIQUE = ("bounded exhaustive exploration of the real parser over a term/state/reaction grammar, "
             "every parse compared with the data the text was generated from")
RULE = ("a formula, state or reaction state counts once per distinct text; a transition is one query "
        "or one model construction on the real code compared with the reference")
ASSUMPTIONS = ["texts are generated from the documented notation: [coef]species_[nsite]site, terms joined "
               "by '+', states by '->' / '<->', any blanks around the joins"]

SPECIES = ["*", "CO", "O2", "Cl", "CCl4", "CH4", "C2H6", "COOH", "H", "HO-H", "CO-O", "CH3-Cl",
           "H-CO-OH", "C10H22", "NaCl", "OH"]
SITES = ["g", "l", "s", "t", "top", "hcp", "brg", "gs", "ll", "tl"]
COEF = [1, 2, 3, 9, 10, 12, 105]
NSITE = [1, 2, 3, 11]

ALPHA = ["CO_g", "O2_l", "*_s", "2*_t", "CO_s", "12O_s", "CO-O_2s", "3CCl4_t", "OH_2top", "2C2H6_g"]
ALPHA3 = ["*_s", "2CO_g", "O_s", "H-OH_2t", "10Cl2_l"]
SEPS = [(" + ", " -> ", " <-> "), ("+", "->", "<->"), ("  +   ", "   ->  ", "  <->   "),
        (" +", "-> ", " <->")]

STEPS = ["CO_g + *_s -> CO_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s",
         "CO_s + *_t -> CO_t + *_s", "Cl2_g + 2*_t -> 2Cl_t", "H2O_l + *_s -> H2O_s",
         "O_s + H2O_s -> 2OH_s", "OH_s + *_t <-> O-H_s + *_t -> O_s + H_t",
         "2CO_s -> 2CO_g + 2*_s", "O2_2s -> O2_g + 2*_s", "CH4_g + 2*_top <-> CH3-H_2top -> CH3_top + H_top",
         "NO_g + *_top -> NO_top", "H2_g + 2*_brg -> 2H_brg", "HCl_l + *_tl + *_gl -> Cl_tl + H_gl",
         "12H_s -> 6H2_g + 12*_s", "CO2_l -> CO2_g"]


def bounds(tier):
    return dict(species=len(SPECIES), sites=len(SITES), coefficients=COEF, site_counts=NSITE,
                states="1-3 terms over %d terms in every order" % len(ALPHA),
                reactions="all ordered pairs of such states (2 terms), all triples over %d terms, %d spacings"
                          % (len(ALPHA3), len(SEPS)),
                models="all ordered selections of up to %d of %d steps" % (3 if tier == "thorough" else 2, len(STEPS)))


def cases(tier):
    out = [dict(part="formula", sp=s) for s in SPECIES]
    n = 3 if tier == "thorough" else 2
    st = list(itertools.chain(*[itertools.permutations(ALPHA, k) for k in range(1, n + 1)]))
    second = 2
    out += [dict(part="state", head=t) for t in ALPHA]
    step = 10 if tier == "thorough" else 5
    out += [dict(part="pair", lo=i, hi=min(i + step, len(st)), n=n, second=second) for i in range(0, len(st), step)]
    out += [dict(part="triple", head=i) for i in range(len(states3()))]
    depth = 3
    out += [dict(part="model", first=i, depth=depth, sub=(None if tier == "thorough" else 5)) for i in range(len(STEPS))]
    out += [dict(part="dup")]
    return out


def states3():
    return list(itertools.chain(*[itertools.permutations(ALPHA3, k) for k in (1, 2)]))


def check_formula(fo, t, rec):
    """one ChemFormula against the term it was generated from"""
    rec.step()
    txt = t.text()
    got = (fo.formula(), fo.stoichiometry(), fo.species(), fo.species_site(), fo.nsite(), fo.site(), fo.type())
    want = (txt, t.n, t.species(), t.name(), t.nsite, t.site, t.kind())
    rec.check(got == want, "formula", "formula %r read as %r, written as %r" % (txt, got, want))
    got = (fo.get_elements_dict(), fo.get_sites_dict(), fo.get_species_elements_dict())
    one = ref.F(1, t.sp, t.nsite, t.site)
    want = (t.elements(), t.sites(), one.elements())
    rec.check(got == want, "formula-content", "%r: elements/sites %r, expected %r" % (txt, got, want))
    rec.trace()


def check_state(so, terms, sep, rec):
    rec.step()
    txt = sep.join(t.text() for t in terms)
    rec.check(so.chem_state() == txt, "state-text", "state text %r, written %r" % (so.chem_state(), txt))
    rec.check(so.split() == [t.text() for t in terms], "state-split", "%r -> %r" % (txt, so.split()))
    rec.check(so.get_species_site_list() == [t.name() for t in terms], "state-list",
              lambda: "%r -> %r" % (txt, so.get_species_site_list()))
    d = {}
    for t in terms:
        d[t.name()] = d.get(t.name(), 0) + t.n
    rec.check(so.get_species_site_dict() == d, "state-dict",
              lambda: "%r -> %r, expected %r" % (txt, so.get_species_site_dict(), d))
    rec.check(so.get_elements_dict() == ref.state_elements(terms), "state-elements",
              lambda: "%r -> %r" % (txt, so.get_elements_dict()))
    rec.check(so.get_sites_dict() == ref.state_sites(terms), "state-sites",
              lambda: "%r -> %r" % (txt, so.get_sites_dict()))
    rec.trace()


def check_rxn(states, seps, rec, deep):
    from scaks.parsers.rxn_parser import RxnEquation
    terms = [[ref.f(t) for t in st] for st in states]
    txt = ref.R(*terms).text(seps[0], (seps[1], seps[2]))
    if not rec.state(txt):
        return
    rec.step()
    eq = RxnEquation(txt)
    rec.check(eq.rxn_equation() == txt, "rxn-text", "text changed: %r" % txt)
    lst = eq.tolist()
    rec.check(len(lst) == len(states), "rxn-states", "%r read as %d states" % (txt, len(lst)))
    fl = eq.to_formula_list()
    got = [[f_.formula() for f_ in st] for st in fl]
    rec.check(got == [list(s) for s in states], "rxn-terms", "%r read as %r" % (txt, got))
    got = [[(f_.stoichiometry(), f_.species(), f_.nsite(), f_.site()) for f_ in st] for st in fl]
    want = [[(t.n, t.species(), t.nsite, t.site) for t in st] for st in terms]
    rec.check(got == want, "rxn-content", "%r read as %r" % (txt, got))
    if deep:
        for so, te in zip(lst, terms):
            check_state(so, te, seps[0], rec)
        for fo, t in zip(itertools.chain(*fl), itertools.chain(*terms)):
            check_formula(fo, t, rec)
    ads = [t.text() for t in terms[0] if t.kind() == "gas"]
    des = [t.text() for t in terms[-1] if t.kind() == "gas"]
    rec.check([g.formula() for g in eq.adsorption_gases()] == ads, "ads-gases", txt)
    rec.check([g.formula() for g in eq.desorption_gases()] == des, "des-gases", txt)
    rec.trace()
    rec.outcome(tuple(len(s) for s in states))


def check_model(texts, rec):
    mech = ref.Mech([ref.rx(t) for t in texts])
    if not rec.state(tuple(texts)):
        return
    rec.step()
    m = build.mkm(mech, texts=texts, solver=None, get_data=False)
    got = dict(gas=m.gas_names, liquid=m.liquid_names, ads=m.adsorbate_names,
               ts=m.transition_state_names, site=m.site_names)
    want = dict(gas=mech.gas, liquid=mech.liq, ads=mech.ads, ts=mech.ts, site=mech.site)
    for k in want:
        rec.check(list(got[k]) == want[k], "names-" + k,
                  "model of %r lists %s species %r, expected %r" % (texts, k, got[k], want[k]))
    got = [[[f_.formula() for f_ in st] for st in r] for r in m.elementary_rxns_list]
    want = [[[t.text() for t in st] for st in r.states] for r in mech.rxns]
    rec.check(got == want, "model-rxns", "%r -> %r" % (texts, got))
    rec.trace()
    rec.outcome((len(mech.ads), len(mech.gas), len(mech.site)))
    rec.sample(dict(texts=texts, names={k: list(v) for k, v in want_names(mech).items()}))


def want_names(mech):
    return dict(gas=mech.gas, liquid=mech.liq, ads=mech.ads, ts=mech.ts, site=mech.site)


def run_case(c, rec):
    from scaks.parsers.rxn_parser import ChemFormula, ChemState
    if c["part"] == "formula":
        for site in SITES:
            for n in COEF:
                for ns in NSITE:
                    t = ref.F(n, ref.sp(c["sp"]), ns, site)
                    rec.state(t.text())
                    check_formula(ChemFormula(t.text()), t, rec)
    elif c["part"] == "state":
        rest = [t for t in ALPHA]
        for k in (0, 1, 2):
            for tail in itertools.product(rest, repeat=k):
                terms = [ref.f(t) for t in (c["head"],) + tail]
                for sep in (" + ", "+", "  +  "):
                    txt = sep.join(t.text() for t in terms)
                    if rec.state(txt):
                        check_state(ChemState(txt), terms, sep, rec)
    elif c["part"] == "pair":
        st = list(itertools.chain(*[itertools.permutations(ALPHA, k) for k in range(1, c["n"] + 1)]))
        se = list(itertools.chain(*[itertools.permutations(ALPHA, k) for k in range(1, c["second"] + 1)]))
        for a in st[c["lo"]:c["hi"]]:
            for b in se:
                if len(a) == 3 and (len(b) > 1):
                    continue
                for i, sp_ in enumerate(SEPS):
                    check_rxn([a, b], sp_, rec, deep=(i < 2 and len(a) < 3))
    elif c["part"] == "triple":
        st = states3()
        a = st[c["head"]]
        for b in st:
            for d in st:
                for i, sp_ in enumerate(SEPS):
                    if i >= 2 and (len(b) > 1 or len(d) > 1):
                        continue
                    check_rxn([a, b, d], sp_, rec, deep=(i == 0 and len(d) == 1))
    elif c["part"] == "model":
        f0 = STEPS[c["first"]]
        check_model([f0], rec)
        for g in STEPS:
            if g == f0:
                continue
            check_model([f0, g], rec)
            for i, h in enumerate(STEPS):
                if h in (f0, g):
                    continue
                if c["sub"] is not None and (i + c["first"]) % c["sub"]:
                    continue
                check_model([f0, g, h], rec)
    elif c["part"] == "dup":
        # spacing does not matter for a model either
        for t in STEPS:
            r = ref.rx(t)
            for sp_ in SEPS:
                txt = r.text(sp_[0], (sp_[1], sp_[2]))
                m = build.mkm(ref.Mech([r]), texts=[txt], solver=None, get_data=False)
                rec.step()
                rec.check(list(m.adsorbate_names) == ref.Mech([r]).ads and
                          list(m.gas_names) == ref.Mech([r]).gas and
                          list(m.site_names) == ref.Mech([r]).site, "names-spacing", txt)
