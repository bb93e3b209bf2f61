"""Shared by the steady-state checks: mechanisms, energies and a reference
evaluation of a returned state."""
import mpmath
from . import ref, build, mechs, kin

MECHS = dict((k, mechs.CYCLES[k]) for k in ("ads", "er", "coox", "iso", "twosite", "hop", "liq"))
MECHS["diss"] = ["O2_g + 2*_s -> 2O_s"]
MECHS["auto"] = ["CO_g + *_s -> CO_s", "CO_g + CO_s + *_s -> 2CO_s"]
# the Jacobian of these is singular everywhere
MECHS["hop0"] = ["CO_s + *_t -> CO_t + *_s"]
MECHS["spect"] = ["CO_g + *_s + O_t -> CO_s + O_t"]
MECHS["five"] = kin.BIG["five"]

# (Ga, dG) by position; every entry is thermodynamically harmless (reverse barriers >= 0)
ENERGIES = {
    "moderate": ([0.6, 0.55, 0.7, 0.5, 0.65], [-0.1, 0.05, -0.2, 0.1, -0.05]),
    "strong": ([0.5, 0.82, 0.9, 0.4, 0.8], [-0.3, 0.11, -0.74, 0.05, -0.4]),
    "weak": ([0.7, 0.7, 0.9, 0.6, 0.5], [0.2, 0.3, 0.4, 0.3, 0.1]),
    "spont": ([0.0, 0.0, 1.07, 0.0, 0.0], [-0.2, -0.5, -0.1, -0.3, -0.02]),
}


def energies(name, n):
    ga, dg = ENERGIES[name]
    return list(ga[:n]), list(dg[:n])


def rel(name, n):
    """as the dictionary handed to the solver"""
    ga, dg = energies(name, n)
    return {"Gaf": ga, "dG": dg, "Gar": [a - d for a, d in zip(ga, dg)]}


def constants(T, e):
    with mpmath.workdps(80):
        kB, h = mpmath.mpf(ref.KB_EV), mpmath.mpf(ref.H_EV)
        k = lambda G: kB * T / h * mpmath.exp(-mpmath.mpf(G) / (kB * T))
        return [k(g) for g in e["Gaf"]], [k(g) for g in e["Gar"]]


def evaluate(mech, T, e, p, totals, th):
    """(derivatives, their uncertainty from double-precision coverages, free sites)"""
    with mpmath.workdps(80):
        mp = mpmath.mpf
        rough = any(not isinstance(x, mpmath.mpf) for x in th)
        kf, kr = constants(T, e)
        free = mech.free([mp(x) for x in th], {s: mp(totals.get(s, 1.0)) for s in mech.site})
        act = dict(free)
        act.update({g: mp(p.get(g, 1.0)) for g in mech.gas + mech.liq})
        rf, rr = mech.rates(kf, kr, act)
        d = mech.dtheta(rf, rr)
        u = [mp(0)] * len(d)
        if rough:
            _, _, ef, er = kin.rates(mech, kf, kr, act)
            u = [sum(abs(mech.net(r, a)) * (x + y) for r, x, y in zip(mech.rxns, ef, er)) for a in mech.ads]
        else:
            u = [sum(abs(mech.net(r, a)) * (abs(x) + abs(y)) for r, x, y in zip(mech.rxns, rf, rr)) * mp(10) ** -40 for a in mech.ads]
        return d, u, {s: free[s] for s in mech.site}


def judge(rec, what, mech, T, e, p, totals, th, tol, error=None):
    """A returned steady state is stationary and physical, and so is its error."""
    d, u, free = evaluate(mech, T, e, p, totals, th)
    txt = lambda: "%s: returned %s" % (what, [mpmath.nstr(mpmath.mpf(x), 20) for x in th])
    rec.check(len(th) == len(mech.ads), "length", txt)
    for x, y, a in zip(d, u, mech.ads):
        rec.check(abs(x) <= tol + y, "not stationary", lambda: txt() + ", d%s/dt = %s, tolerance %s" % (a, mpmath.nstr(x, 10), tol))
    for x, a in zip(th, mech.ads):
        rec.check(x >= 0, "negative coverage", lambda: txt() + ", %s is negative" % a)
    for s, x in free.items():
        slack = tol if all(isinstance(t, mpmath.mpf) for t in th) else max(tol, 1e-14)
        rec.check(x >= -slack, "more adsorbates than sites", lambda: txt() + ", free %s = %s" % (s, mpmath.nstr(x, 10)))
    if error is not None:
        with mpmath.workdps(80):
            norm = mpmath.sqrt(sum(x * x for x in d))
            un = sum(u)
            hi = max(abs(x) for x in d)
            ok = any(abs(mpmath.mpf(error) - v) <= un + mpmath.mpf("1e-6") * v for v in (norm, hi))
            rec.check(ok, "error", lambda: txt() + ", reported error %s, derivatives %s" % (error, [mpmath.nstr(x, 10) for x in d]))


# ----------------------------------------------------------------------
# What turnover can be (C15, C16)
# ----------------------------------------------------------------------

CYCLIC = dict((k, MECHS[k]) for k in ("ads", "diss", "er", "coox", "iso", "twosite", "hop", "liq", "five"))
CYCLIC["deadend"] = ["O2_g + 2*_s -> 2O_s", "CO_g + O_s <-> CO-O_s -> CO2_g + *_s", "NO_g + *_s -> NO_s"]
CYCLIC["carbonate"] = ["CO_g + *_s -> CO_s", "CO_s + O2_g -> CO3_s", "CO3_s + CO_g -> 2CO2_g + *_s"]
CYCLIC["nno"] = ["N2O_g + *_s <-> N2-O_s -> N2_g + O_s", "2O_s -> O2_g + 2*_s"]
CYCLIC["order"] = ["CO_g + O_s <-> CO-O_s -> CO2_g + *_s", "O2_g + *_s -> O2_s", "O2_s + *_s -> 2O_s"]


def cycle(mech):
    """How often each step runs per turn of the cycle, as smallest integers; None unless there is exactly one way."""
    from fractions import Fraction
    from math import gcd
    rows = [[Fraction(mech.net(r, a)) for r in mech.rxns] for a in mech.ads + mech.site]
    n = len(mech.rxns)
    piv, r = [], 0
    for j in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][j]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        rows[r] = [x / rows[r][j] for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][j]:
                rows[i] = [x - rows[i][j] * y for x, y in zip(rows[i], rows[r])]
        piv.append(j)
        r += 1
    free = [j for j in range(n) if j not in piv]
    if len(free) != 1:
        return None if free else [0] * n
    v = [Fraction(0)] * n
    v[free[0]] = Fraction(1)
    for i, j in enumerate(piv):
        v[j] = -rows[i][free[0]]
    den = 1
    for x in v:
        den = den * x.denominator // gcd(den, x.denominator)
    v = [int(x * den) for x in v]
    g = 0
    for x in v:
        g = gcd(g, x)
    return [x // g for x in v]
