"""Shared by the kinetics checks: which mechanisms, conditions and coverages are
explored, and how numbers are compared."""
import itertools
import mpmath
from . import ref, build, mechs

# base set for two-step mechanisms: one of every shape
BASE2 = [
    "CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s",
    "CO_g + O_s <-> CO-O_s -> CO2_g + *_s", "CO_s + *_t -> CO_t + *_s", "H2O_l + *_s -> H2O_s",
    "2CO_s -> CO_g + *_s + CO_s", "O2_g + 2*_t <-> O-O_2t -> 2O_t", "CO_s + O_t <-> CO-O_s + *_t -> CO2_g + *_s + *_t",
    "CO_g + CO_s + *_s -> 2CO_s", "2O_s -> O2_s + *_s", "O2_2s -> 2O_s", "12H_s -> 6H2_g + 12*_s",
]

# three or more steps
BIG = {
    "coox": mechs.CYCLES["coox"], "er": mechs.CYCLES["er"], "twosite": mechs.CYCLES["twosite"], "hop": mechs.CYCLES["hop"],
    "iso": mechs.CYCLES["iso"], "liq": mechs.CYCLES["liq"],
    "five": ["CO_g + *_s -> CO_s", "O2_g + *_s -> O2_s", "O2_s + *_s <-> O-O_2s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_s + *_s",
             "CO2_s -> CO2_g + *_s"],
    "wgs": ["CO_g + *_s -> CO_s", "H2O_g + *_s -> H2O_s", "H2O_s + *_s <-> H-OH_2s -> OH_s + H_s",
            "CO_s + OH_s <-> CO-OH_2s -> COOH_s + *_s", "COOH_s + *_s -> CO2_g + H_s + *_s", "2H_s -> H2_g + 2*_s"],
    # more than ten steps and adsorbates, names that contain one another
    "long": ["CO_g + *_s -> CO_s", "H2_g + 2*_s -> 2H_s", "CO_s + *_s <-> C-O_2s -> C_s + O_s", "C_s + H_s <-> C-H_2s -> CH_s + *_s",
             "CH_s + H_s -> CH2_s + *_s", "CH2_s + H_s -> CH3_s + *_s", "CH3_s + H_s -> CH4_g + 2*_s", "O_s + H_s -> OH_s + *_s",
             "OH_s + H_s -> H2O_g + 2*_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "CO_s + *_t -> CO_t + *_s", "H2O_l + *_t -> H2O_t",
             "H2O_t + *_s -> OH_s + H_t", "CO_t -> CO_g + *_t", "2H_t -> H2_g + 2*_t"],
    # CO oxidation on Pt(100), as in examples/KMC: steps between the same states, a step written in two ways
    "pt100": ["CO_g + *_t -> CO_t", "CO_g + *_b -> CO_b", "O2_g + 2*_t -> O2_2t", "O2_2t + 2*_b <-> O-O_2t + 2*_b -> 2O_b + 2*_t",
              "O2_2t + CO_b <-> OCO-O_2t + *_b -> O_b + CO2_g + 2*_t", "O2_g + 2*_b -> 2O_b", "CO_b + O_b <-> CO-O_2b -> CO2_g + 2*_b",
              "CO_b + O_b <-> OC-O_2b -> CO2_g + 2*_b", "CO_b + *_t <-> CO_t + *_b -> CO_b + *_t", "O_b + *_t <-> O_t + *_b -> O_b + *_t",
              "O2_g + 2*_b -> O_b + O_b", "CO_t + O_b <-> CO-O_t + *_b -> CO2_g + *_b + *_t"],
    "amm": ["N2_g + 2*_s -> 2N_s", "H2_g + 2*_s -> 2H_s", "N_s + 3H_s -> NH3_g + 4*_s"],
}

# temperature, pressures/concentrations by position, site totals by position
CONDS = [dict(T=450.0, p=[1.0], tot=[1.0]),
         dict(T=523.5, p=[0.25, 3.0, 0.0], tot=[0.75, 0.5])]
CONDS_T = CONDS + [dict(T=300, p=[2, 1e-3, 0.5], tot=[2.0, 1.0]),
                   dict(T=900.0, p=[0.0, 1.5], tot=[1, 0.25])]
GA = [0.5, 0.82, 0.0, 1.07, 0.33, 0.61]
DG = [-0.3, 0.11, -0.74, 0.05, 0.4, -0.02]


def conds(tier):
    return CONDS_T if tier == "thorough" else CONDS


def pairs(tier):
    base = BASE2 if tier == "thorough" else BASE2[:10]
    return [list(p) for p in itertools.permutations(base, 2) if merges(p)]


def merges(p):
    """both steps can live in one model"""
    return p[0] != p[1]


def bounds(tier):
    return dict(one_step=len(singles(tier)), two_step=len(pairs(tier)), larger=len(BIG), conditions=len(conds(tier)),
                coverages="all combinations of a value grid per adsorbate up to the site total, plus the origin and the full sites")


def singles(tier):
    return mechs.singles(sorted(mechs.ALPHA), 3 if tier == "thorough" else 2, 3 if tier == "thorough" else 2)


def cases(tier):
    one = [[t] for t in singles(tier)]
    two = pairs(tier)
    out = [dict(ms=one[i:i + 6], tier=tier) for i in range(0, len(one), 6)]
    out += [dict(ms=two[i:i + 6], tier=tier) for i in range(0, len(two), 6)]
    out += [dict(ms=[BIG[k]], tier=tier) for k in sorted(BIG)]
    return out


def ckey(c):
    return "T=%r p=%r tot=%r" % (c["T"], c["p"], c["tot"])


def conditions(mech, c):
    p = {g: c["p"][i % len(c["p"])] for i, g in enumerate(mech.gas)}
    q = {l: c["p"][(i + 1) % len(c["p"])] or 0.5 for i, l in enumerate(mech.liq)}
    tot = {s: c["tot"][i % len(c["tot"])] for i, s in enumerate(mech.site)}
    return p, q, tot


def grid(mech, c, tier):
    _, _, tot = conditions(mech, c)
    n = len(mech.ads)
    vals = {0: [0], 1: [0.0, 0.125, 0.3, 0.9, 1.0], 2: [0.0, 0.15, 0.4, 1.0], 3: [0.0, 0.2, 0.5]}.get(n, [0.07, 0.31])
    if n > 5:
        vals = [0.1]
    out = []
    for v in itertools.product(vals, repeat=n):
        th = [x * tot["*_" + mech.info[a].site] for x, a in zip(v, mech.ads)]
        ok = True
        for s in mech.site:
            if sum(t for t, a in zip(th, mech.ads) if "*_" + mech.info[a].site == s) > tot[s] + 1e-9:
                ok = False
        if ok:
            out.append(tuple(th))
    if n > 3:
        base = [tot["*_" + mech.info[a].site] / (n + 2.0) for a in mech.ads]
        out.append(tuple([0.0] * n))
        out += [tuple(b * (1.7 if i == j else 0.6) for j, b in enumerate(base)) for i in range(n)]
    # high-precision coverages as well
    if n:
        out.append(tuple(mpmath.mpf(1) / (7 + i) / (n + 1) for i in range(n)))
    return out


def energies(n):
    ga = [GA[i % len(GA)] + 0.01 * (i // len(GA)) for i in range(n)]
    dg = [DG[i % len(DG)] for i in range(n)]
    ga = [d if abs(g) < 1e-10 and d > 0 else g for g, d in zip(ga, dg)]
    return ga, dg


def models(case):
    for texts in case["ms"]:
        mech = ref.Mech(texts)
        for c in conds(case["tier"]):
            yield mech, c, grid(mech, c, case["tier"])


def real(mech, c, **opt):
    p, q, tot = conditions(mech, c)
    return build.mkm(mech, energies=energies(len(mech.rxns)), p=p, c=q, totals=tot, T=c["T"], **opt)


def activity(mech, c, th):
    p, q, tot = conditions(mech, c)
    mp = mpmath.mpf
    a = {k: mp(v) for k, v in mech.free([mp(x) for x in th], {k: mp(v) for k, v in tot.items()}).items()}
    a.update({k: mp(v) for k, v in p.items()})
    a.update({k: mp(v) for k, v in q.items()})
    return a


def rates(mech, kf, kr, act):
    """rates and the uncertainty of each that double-precision free-site
    coverages (error of some 1e-16) leave"""
    rf, rr = mech.rates(kf, kr, act)
    up = dict(act)
    for s in mech.site:
        up[s] = abs(act[s]) + mpmath.mpf("4e-15")
    ab = {k: abs(v) for k, v in act.items()}
    uf, ur = mech.rates(kf, kr, up)
    bf, br = mech.rates(kf, kr, ab)
    ef = [abs(x - y) + 1e-12 * abs(y) for x, y in zip(uf, bf)]
    er = [abs(x - y) + 1e-12 * abs(y) for x, y in zip(ur, br)]
    return rf, rr, ef, er


def same(rec, got, want, what, mech, cond, th, i, tol):
    d = abs(mpmath.mpf(got) - mpmath.mpf(want))
    rec.check(d <= tol + mpmath.mpf(10) ** -290, what,
              lambda: "%r at %s, coverages %s: %s of step/species %d is %s, expected %s" % (
                  mech.texts(), ckey(cond), [str(x) for x in th], what, i, mpmath.nstr(mpmath.mpf(got), 20), mpmath.nstr(mpmath.mpf(want), 20)))
