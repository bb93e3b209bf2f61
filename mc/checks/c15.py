"""C15: turnover at a steady state."""
import itertools
import math
import mpmath
from .. import ref, build, steady, kin
from . import c05

PROPERTY = "C15"
TECHNIQUE = ("bounded exhaustive exploration of real steady-state searches: single-cycle mechanisms in every order of steps and with every "
             "subset of steps reversed x energies x gas pressures (on and off the chemical equilibrium) x root finders; the turnover of every "
             "steady state is judged by atom balances, the exact rational cycle and the thermodynamic driving force")
RULE = "a state is (mechanism as written, energies, temperature, pressures, root finder, start); a transition one steady state"
ASSUMPTIONS = ["a search that finds no steady state claims nothing (C14)",
               "balances hold up to what the tolerance of the steady state and double-precision pressures leave"]
CASE_LIMIT = 800
TOL = 1e-25


def bounds(tier):
    return dict(mechanisms=sorted(steady.CYCLIC), energies=sorted(steady.ENERGIES), orders="all up to 3 steps, else 6" if tier == "quick" else "all up to 4 steps, else 24",
                directions="every subset of steps reversed (mechanisms of up to %d steps; else all or none or single ones)" % (3 if tier == "quick" else 5),
                site_totals="1, and others", temperatures=TEMPS[tier], pressures="for every gas as the one that is adjusted: on the equilibrium, and off it by factors %r" % (FACTORS[tier],))


TEMPS = dict(quick=[450.0, 650.0], thorough=[350.0, 450.0, 650.0, 900.0])
FACTORS = dict(quick=[1e-3, 0.5, 40.0], thorough=[1e-8, 1e-3, 0.5, 0.99, 1.01, 40.0, 1e6])
BASE = [1.0, 0.3, 2.5, 0.7]


def cases(tier):
    out = []
    for name in sorted(steady.CYCLIC):
        n = len(steady.CYCLIC[name])
        for e in sorted(steady.ENERGIES):
            for T in TEMPS[tier]:
                for part in range(4):
                    if part == 2 and n > 2 and tier == "quick" and e != "moderate":
                        continue
                    out.append(dict(mech=name, e=e, T=T, part=part, tier=tier))
    return out


def written(name, part, tier):
    """part 0: as listed, 1: reversals, 2: orders; yields (texts, permutation, reversed steps)"""
    texts = steady.CYCLIC[name]
    n = len(texts)
    if part == 0:
        yield list(range(n)), ()
    elif part == 3:     # other site totals
        yield list(range(n)), (0,)
    elif part == 1:
        for k in range(1, n + 1):
            for rev in itertools.combinations(range(n), k):
                if n > (3 if tier == "quick" else 5) and 1 < k < n:
                    continue
                yield list(range(n)), rev
    else:
        perms = list(itertools.permutations(range(n)))[1:]
        cap = 6 if tier == "quick" else 24
        if len(perms) > cap:
            perms = perms[::len(perms) // cap][:cap]
        for p in perms:
            yield list(p), (p[0],)


def run_case(c, rec):
    for perm, rev in written(c["mech"], c["part"], c["tier"]):
        one(c, rec, perm, rev)


def one(c, rec, perm, rev):
    texts = steady.CYCLIC[c["mech"]]
    ga, dg = steady.energies(c["e"], len(texts))
    ga = [max(a, d, 0.0) for a, d in zip(ga, dg)]
    rxns, GA, DG = [], [], []
    for i in perm:
        r = ref.rx(texts[i])
        if i in rev:
            rxns.append(r.rev().text())
            GA.append(ga[i] - dg[i])
            DG.append(-dg[i])
        else:
            rxns.append(r.text())
            GA.append(ga[i])
            DG.append(dg[i])
    mech = ref.Mech(rxns)
    T = c["T"]
    totals = {x: (0.6, 1.7)[i] for i, x in enumerate(mech.site)} if c["part"] == 3 else {}
    sig = steady.cycle(mech)
    if sig is None:
        return
    fluids = mech.gas + mech.liq
    nu = [sum(sig[i] * mech.net(r, g) for i, r in enumerate(mech.rxns)) for g in fluids]
    kT = ref.KB_EV * T
    e = {"Gaf": list(GA), "dG": list(DG), "Gar": [a - d for a, d in zip(GA, DG)]}
    sets = [("base", {g: BASE[i] for i, g in enumerate(fluids)})]
    for j, g in enumerate(fluids):
        if not nu[j]:
            continue
        p = {x: BASE[i] for i, x in enumerate(fluids)}
        rest = sum(s * d for s, d in zip(sig, DG)) / kT + sum(n * math.log(p[x]) for x, n in zip(fluids, nu) if x != g)
        lnp = -rest / nu[j]
        if abs(lnp) > 20:
            continue
        p[g] = math.exp(lnp)
        sets.append(("equilibrium", p))
        for f in FACTORS[c["tier"]] if j == 0 or c["tier"] == "thorough" else FACTORS[c["tier"]][:1]:
            sets.append(("off", dict(p, **{g: p[g] * f})))
    if not any(nu) and any(sig):
        # energies that belong to states add up to nothing around the cycle
        i = [x for x in range(len(sig)) if sig[x]][-1]
        DG[i] -= sum(x * d for x, d in zip(sig, DG)) / sig[i]
        GA[i] = max(GA[i], DG[i], 0.0)
        e = {"Gaf": list(GA), "dG": list(DG), "Gar": [a - d for a, d in zip(GA, DG)]}
    if not any(nu):      # no overall reaction: every steady state is an equilibrium
        sets = [("equilibrium", p) for _, p in sets] + [("equilibrium", {g: 1e-4 for g in fluids})]
    for kind, p in sets:
        for rf in ("MDNewton", "ConstrainedNewton") if kind == "base" and c["part"] == 0 else ("MDNewton",):
            m = build.mkm(mech, energies=(GA, DG), T=T, p={g: p[g] for g in mech.gas}, c={l: p[l] for l in mech.liq},
                          totals=totals, tolerance=TOL, decimal_precision=60, rootfinding=rf)
            judge(c, rec, mech, m, e, T, p, totals, sig, nu, kind, (perm, rev, rf))


def judge(c, rec, mech, m, e, T, p, totals, sig, nu, kind, how):
    s = m.solver
    n = len(mech.ads)
    left = [[0.98 if i == j else 0.002 for i in range(n)] for j in range(n)] + [[1e-9] * n]

    def guess(model, N):        # a finite supply of further starts
        g = left.pop()
        if not left:
            model.hybrid_method = None
        return tuple(g)
    m.hybrid_method = guess
    try:
        th = s.get_steady_state_cvgs(tuple([0.3 / n] * n))
    except Exception as x:
        th = None
        rec.count("search raised " + type(x).__name__)
    rec.step()
    rec.state((c["mech"], c["e"], T, sorted(p.items()), how))
    if th is None:
        rec.count("no steady state found")
        return
    rec.count("steady states at " + kind)
    what = lambda: "%r, energies %s, %g K, pressures %r (%s), %s, coverages %s" % (mech.texts(), c["e"], T, p, kind, how[2], [mpmath.nstr(x, 12) for x in th])
    steady.judge(rec, what(), mech, T, e, p, totals, th, TOL, s.error)
    rf, rr = s.get_rates(cvgs_tuple=th)
    net = s.get_net_rates(cvgs_tuple=th)
    tof = list(s.get_tof(cvgs=th))
    rev = s.get_reversibilities(rf, rr)
    fluids = mech.gas + mech.liq
    mp = mpmath.mpf
    for x, a, b in zip(rev, rf, rr):
        rec.check(a == 0 or abs(mp(x) - mp(b) / mp(a)) <= mp("1e-12") * abs(mp(b) / mp(a)), "reversibility", lambda: "%s: reversibilities %s of rates %s, %s" % (what(), rev, [mpmath.nstr(y, 8) for y in rf], [mpmath.nstr(y, 8) for y in rr]))
    with mpmath.workdps(70):
        kf, kr = steady.constants(T, e)
        act = mech.free([mp(x) for x in th], {x: mp(totals.get(x, 1.0)) for x in mech.site})
        act.update({g: mp(p[g]) for g in fluids})
        _, _, uf, ur = kin.rates(mech, kf, kr, act)
        exact = all(isinstance(x, mpmath.mpf) for x in th)
        noise = [mp(10) ** -40 * (abs(a) + abs(b)) if exact else a2 + b2 for a, b, a2, b2 in zip(rf, rr, uf, ur)]
        slack = 50 * TOL + 4 * sum(noise)
        # the gases and liquids get and lose what an elementary balance allows
        rec.check(len(tof) >= len(mech.gas), "turnover", lambda: "%s: %d turnover frequencies" % (what(), len(tof)))
        names = fluids[:len(tof)]
        for el in sorted({x for g in fluids for x in elements(mech, g)}):
            tot = sum(mp(t) * elements(mech, g).get(el, 0) for t, g in zip(tof, names))
            if all(g in names or not elements(mech, g).get(el) for g in fluids):
                rec.check(abs(tot) <= slack * 10, "atoms", lambda: "%s: %s of %s per second appear from nowhere; turnover %s" % (
                    what(), mpmath.nstr(tot, 5), el, dict(zip(names, map(float, tof)))))
        # the steps keep pace with the cycle, so the turnover is the overall reaction
        if any(sig):
            big = max(range(len(sig)), key=lambda i: abs(sig[i]))
            turn = mp(net[big]) / sig[big]
            for i, r in enumerate(net):
                rec.check(abs(mp(r) - sig[i] * turn) <= slack * 20, "cycle", lambda: "%s: net rates %s, the cycle runs the steps %s times" % (what(), [mpmath.nstr(x, 8) for x in net], sig))
            for g, t, n in zip(names, tof, nu):
                rec.check(abs(mp(t) - n * turn) <= slack * 20, "overall", lambda: "%s: turnover %s, the overall reaction has %s" % (what(), dict(zip(names, map(float, tof))), dict(zip(fluids, nu))))
            if any(nu) and kind == "base":
                eq = m.parser.get_total_rxn_equation()
                try:
                    d = c05.parse(eq)
                except Exception as x:
                    rec.fail("unreadable", "%s: overall equation %r (%s)" % (what(), eq, x))
                    d = None
                for g, t in zip(names, tof):
                    for h, v in zip(names, tof):
                        rec.check(d is None or abs(mp(t) * d.get(h, 0) - mp(v) * d.get(g, 0)) <= slack * 2000, "equation",
                                  lambda: "%s: turnover %s is not that of the overall equation %r" % (what(), dict(zip(names, map(float, tof))), eq))
        else:
            turn = mp(0)
        # thermodynamics
        kT = mp(ref.KB_EV) * mp(T)
        force = -sum(mp(x) * mp(d) for x, d in zip(sig, e["dG"])) - kT * sum(n * mpmath.log(mp(p[g])) for n, g in zip(nu, fluids))
        scale = [max(abs(mp(a)), abs(mp(b))) for a, b in zip(rf, rr)]
        if kind == "equilibrium":
            near = mp("1e-12")
            for i in range(len(net)):
                rec.check(abs(net[i]) <= near * sum(scale) + slack, "equilibrium", lambda: "%s: net rates %s of rates %s" % (what(), [mpmath.nstr(x, 5) for x in net], [mpmath.nstr(x, 5) for x in scale]))
                if scale[i] > 1e6 * slack:
                    rec.check(abs(mp(rev[i]) - 1) <= near * sum(scale) / scale[i] + 2 * slack / scale[i] + mp("1e-14"), "reversibility", lambda: "%s: reversibilities %s" % (what(), rev))
            for t in tof:
                rec.check(abs(t) <= 20 * near * sum(scale) + slack * 20, "equilibrium", lambda: "%s: turnover %s" % (what(), [float(x) for x in tof]))
        elif abs(force) > 1e-9:
            if abs(turn) > 100 * slack:
                rec.count("turnovers with a direction")
                rec.check((turn > 0) == (force > 0), "direction", lambda: "%s: the cycle turns %s times per second against a driving force of %s eV" % (what(), mpmath.nstr(turn, 5), mpmath.nstr(force, 5)))
                for i, x in enumerate(sig):
                    if x and abs(net[i]) > 1e-9 * scale[i]:
                        rec.check((rev[i] < 1) == (turn * x > 0), "reversibility", lambda: "%s: reversibilities %s with net rates %s" % (what(), rev, [mpmath.nstr(v, 5) for v in net]))
    rec.outcome((kind, [mpmath.nstr(mp(t), 6) for t in tof]))
    rec.trace()
    rec.sample(dict(mechanism=mech.texts(), pressures=p, kind=kind, cycle=sig, turnover=[float(t) for t in tof]))


def elements(mech, name):
    t = mech.info[name]
    return {k: v // t.n for k, v in t.elements().items()}
