"""C25: thermochemical corrections."""
import itertools
import math
from .. import ref, build

PROPERTY = "C25"
TECHNIQUE = ("bounded exhaustive exploration: all mechanisms of up to three steps over a pool of steps (coefficients to three, several gases in a state, liquids, transition states, both "
             "directions) x energies x conditions x methods and orders of correcting, on the real corrector against the weighted sums of its own corrections of the gases; every "
             "tabulated gas on grids of temperature and pressure with the ends of the ranges, against the tabulated equations and physical relations")
RULE = "a state is (mechanism, energies, condition, corrections so far) or (gas, temperature, pressure)"
ASSUMPTIONS = ["Shomate equations are judged within the tabulated ranges (continuity only below them)", "partition functions from 50 K on, to half a percent of their value where their form changes",
               "the barrier of a two-state step that has a gas is judged where it was the step's higher end before", "entropies of the two methods are compared up to 750 K for the gases tabulated for both"]
KB, EV = 8.617333262e-5, 0.01036427
STEPS = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "CO_g + O_s <-> CO-O_s -> CO2_g + *_s",
         "2CO_g + 2*_s -> 2CO_s", "3H2_g + 6*_s -> 6H_s", "CO_g + H2_g + *_s <-> CO-_s + H2_g -> CO_s + H2_g", "CO_s + *_t <-> CO_t + *_s -> CO_t + *_s", "H2O_l + *_s -> H2O_s",
         "H2O_g + CO_g + *_s <-> CO-H2O_s -> CO2_g + H2_g + *_s", "2NO_s + CO_g <-> N-O_2s + NO_g + CO_g -> N2_g + O2_g + 2*_s + CO_g", "CH4_g + *_s + *_s <-> CH3-H_2s -> CH3_s + H_s",
         "CO_g + CO_g + 2*_s -> CO_s + CO_s", "CO2_g -> CO2_l", "CO_s + *_t -> CO_t + *_s", "OH_s + H_s -> H2O_s + *_s", "2H2_g + O2_g + 2*_s <-> 2H2O-_s -> 2H2O_g + 2*_s"]
ENE = [(0.0, -0.8), (0.6, 0.6), (0.0, 0.0), (2.25, 2.25), (0.45, -1.2), (1.1, 0.35)]
COND = [(298.15, 0.0), (450.0, 1.0), (900.0, -1.0)]
PRES = [1e-9, 0.01, 1.0, 101.325]
TEMPS = [50.0, 77.0, 100.0, 173.0, 250.0, 298.0, 298.15, 300.0, 350.0, 450.0, 499.5, 500.0, 500.5, 700.0, 999.0, 1000.0, 1200.0, 1300.0, 1400.0, 1600.0, 2000.0, 2500.0, 6000.0]


def bounds(tier):
    return dict(steps=len(STEPS), directions=2, mechanisms="all single steps, all ordered pairs" + ("" if tier == "quick" else ", all ordered triples") + ", all steps at once", energies=ENE, conditions=COND,
                corrections="every sequence of up to two of both methods", gases="all tabulated", temperatures=TEMPS, pressures=PRES)


def cases(tier):
    out = [dict(part="steps", ix=[[i] for i in range(len(STEPS))])]
    pairs = [[i, j] for i in range(len(STEPS)) for j in range(len(STEPS)) if i != j]
    out += [dict(part="steps", ix=pairs[i:i + 5]) for i in range(0, len(pairs), 5)]
    if tier != "quick":
        tr = [list(x) for x in itertools.permutations(range(len(STEPS)), 3)]
        out += [dict(part="steps", ix=tr[i:i + 5]) for i in range(0, len(tr), 5)]
    out.append(dict(part="steps", ix=[list(range(len(STEPS)))]))
    return out + [dict(part="gases")] + [dict(part="orders", k=k) for k in range(4)]


def worker_init(*a):
    import scaks.models.micro_kinetic_model  # noqa


def run_case(c, rec):
    {"steps": steps, "gases": gases, "orders": orders}[c["part"]](c, rec)


def steps(c, rec):
    for ix in c["ix"]:
        for flip in itertools.product((False, True), repeat=len(ix)) if len(ix) < 3 else [tuple((i + k) % 2 == 0 for i in range(len(ix))) for k in (1, 0)]:
            rs = [ref.rx(STEPS[i]) for i in ix]
            mech = ref.Mech([r.rev() if f else r for r, f in zip(rs, flip)])
            for k, (T, ex) in enumerate(COND):
                if len(ix) > 1 and (sum(ix) + sum(flip)) % 3 != k:
                    continue
                p = {g: 10.0 ** (ex * (i + 1)) for i, g in enumerate(mech.gas)}
                one(mech, T, p, rec, ix)


def one(mech, T, p, rec, ix):
    m = build.mkm(mech, T=T, p=p, get_data=False)
    cor = m.corrector
    n = len(mech.rxns)
    single = {}
    for g in mech.gas:
        single["shomate", g] = cor.shomate_correction(g)
        single["entropy", g] = cor.entropy_correction(g)
        w = cor.shomate_correction(g, T=T)
        rec.check(w == single["shomate", g], "model temperature", lambda: "Shomate of %s at the model's %r K: %r, given that temperature: %r" % (g, T, single["shomate", g], w))
        w = cor.entropy_correction(g, T=T, p=101325.0 * p[g])
        rec.check(abs(w - single["entropy", g]) < 1e-12, "model pressure", lambda: "%s at the model's %r K, %r bar: %r, given these: %r" % (g, T, p[g], single["entropy", g], w))
        for meth in ("shomate", "entropy"):
            rec.check(single[meth, g] != 0.0 or known(g, meth) is False, "available", lambda: "no %s correction of %s at %r K" % (meth, g, T))
    other = list(mech.ads) + list(mech.liq) + list(mech.site) + list(mech.ts)
    for x in other:
        rec.check(cor.shomate_correction(x) == 0.0 and cor.entropy_correction(x) == 0.0, "not a gas", lambda: "%s is corrected by %r / %r" % (x, cor.shomate_correction(x), cor.entropy_correction(x)))
    for e0 in range(len(ENE) if n == 1 else 2):
        ene = [ENE[(e0 + 3 * i + sum(ix)) % len(ENE)] if n > 1 else ENE[e0] for i in range(n)]
        ga, dg = [], []
        for r, (a, d) in zip(mech.rxns, ene):
            ga.append(a if len(r.states) == 3 or not any(gas_terms(st) for st in r.states) else max(0.0, d))
            dg.append(d)
        for methods in (["shomate"], ["entropy"], ["shomate", "entropy"], ["entropy", "entropy"]) if n == 1 else (["shomate"], ["entropy", "shomate"]):
            start = {"Gaf": list(ga), "Gar": [a - d for a, d in zip(ga, dg)], "dG": list(dg)}
            got = start
            want = [(a, a - d, d) for a, d in zip(ga, dg)]
            before = m.relative_energies and dict(m.relative_energies)
            for k, meth in enumerate(methods):
                # the default method is the Shomate equation
                got = cor.correct_relative_energies(got) if meth == "shomate" and e0 % 2 else cor.correct_relative_energies(got, method=meth)
                rec.step()
                new = []
                for r, (a, b, d) in zip(mech.rxns, want):
                    s = [sum(k_ * single[meth, x] for x, k_ in gas_terms(st)) for st in r.states]
                    d2 = d + s[-1] - s[0]
                    a2 = a + s[1] - s[0] if len(s) == 3 else max(0.0, d2) if any(gas_terms(st) for st in r.states) else a
                    new.append((a2, a2 - d2, d2))
                want = new
                what = lambda: "%s at %r K, %r, energies %r corrected by %s" % ([r.text() for r in mech.rxns], T, p, list(zip(ga, dg)), methods[:k + 1])
                rec.state((tuple(r.text() for r in mech.rxns), T, tuple(ga), tuple(dg), tuple(methods[:k + 1])))
                rec.check(sorted(got) == ["Gaf", "Gar", "dG"] and all(len(v) == n for v in got.values()), "shape", lambda: "%s: %r" % (what(), got))
                for i, w in enumerate(want):
                    g = (got["Gaf"][i], got["Gar"][i], got["dG"][i])
                    rec.check(abs(g[2] - w[2]) < 1e-9, "reaction energy", lambda: "%s: step %d has dG %r, expected %r" % (what(), i, g[2], w[2]))
                    rec.check(abs(g[0] - g[1] - g[2]) < 1e-9, "consistency", lambda: "%s: step %d has %r" % (what(), i, g))
                    rec.check(abs(g[0] - w[0]) < 1e-9, "barrier", lambda: "%s: step %d has barrier %r, expected %r" % (what(), i, g[0], w[0]))
                    if len(mech.rxns[i].states) == 2:
                        rec.check(g[0] >= 0.0 and g[1] > -1e-12, "negative barrier", lambda: "%s: step %d has %r" % (what(), i, g))
                    rec.outcome((w[0] > 0, w[1] > 0, w[2] > 0, len(mech.rxns[i].states)))
            rec.trace()
            rec.check((m.relative_energies and dict(m.relative_energies)) == before, "other energies", lambda: "%s: the model's energies changed" % what())
    start = {"Gaf": list(ga), "Gar": [a - d for a, d in zip(ga, dg)], "dG": list(dg)}
    copy = {k: list(v) for k, v in start.items()}
    try:
        cor.correct_relative_energies(start, method="entropi")
        rec.fail("unknown method", "method 'entropi' is accepted")
    except ValueError:
        pass
    rec.check(start == copy, "unknown method", lambda: "a refused correction changed the energies: %r" % (start,))
    rec.count("mechanisms")


def gas_terms(st):
    return [(f.name(), f.n) for f in st if f.name().endswith("_g")]


def known(g, meth):
    from scaks.database.thermo_data import shomate_params, rotation_temperatures, vibration_temperatures
    if meth == "shomate":
        return g in set(k.split(":")[0] for k in shomate_params)
    return g in rotation_temperatures and g in vibration_temperatures


def shomate(params, par0, T):
    def h(T, params):
        A, B, C, D, E, F, G, H = params
        t = T / 1000.0
        return A * t + B * t ** 2 / 2 + C * t ** 3 / 3 + D * t ** 4 / 4 - E / t + F - H
    t = T / 1000.0
    A, B, C, D, E, F, G, H = params
    s = A * math.log(t) + B * t + C * t ** 2 / 2 + D * t ** 3 / 3 - E / (2 * t ** 2) + G
    t0 = 0.29815
    A, B, C, D, E = par0[:5]
    cp = A + B * t0 + C * t0 ** 2 + D * t0 ** 3 + E / t0 ** 2
    return EV * (cp * t0 + h(T, params) - h(298.15, par0) - T * s / 1000.0)


def ideal(g, T, p, rot, vib):
    """free energy of an ideal gas molecule; rotation by summation over the levels"""
    import scaks.parsers.parser_base as pb
    mass = pb.ParserBase.get_molecular_mass(g[:-2], absolute=True)
    kB, h = KB * 1.602176e-19, 6.62607004e-34
    qt = kB * T / p * (2 * math.pi * mass * kB * T / h ** 2) ** 1.5
    th = rot["theta"]
    if len(th) == 1:
        n = int(12 * math.sqrt(T / th[0])) + 10
        qr = sum((2 * j + 1) * math.exp(-th[0] * j * (j + 1) / T) for j in range(n)) / rot["sigma"]
    else:
        qr = math.sqrt(math.pi * T ** 3 / (th[0] * th[1] * th[2])) / rot["sigma"]
    lnv = -sum(math.log(1 - math.exp(-v / T)) for v in vib)
    if len(vib) == 1:
        lnv -= vib[0] / (2 * T)
    return -KB * T * (math.log(qt * qr) + lnv)


def gases(c, rec):
    from scaks.database.thermo_data import shomate_params, rotation_temperatures, vibration_temperatures
    import numpy as np
    m = build.mkm(ref.Mech([ref.rx("CO_g + *_s -> CO_s")]), get_data=False)
    cor = m.corrector
    ranges = {}
    for k, v in shomate_params.items():
        g, r = k.split(":")
        ranges.setdefault(g, []).append(tuple(float(x) for x in r.split("-")) + (v,))
    for g in sorted(ranges):
        rs = sorted(ranges[g])
        lo, hi = rs[0][0], rs[-1][1]
        temps = sorted(set([t for t in TEMPS if lo <= t <= hi] + [x for r in rs for x in r[:2]] + [x for r in rs for x in ((r[0] + r[1]) / 2, r[0] + 0.01, r[1] - 0.01)]))
        for T in temps:
            got = cor.shomate_correction(g, T=T)
            par0 = [v for a, b, v in rs if a <= 298.15 <= b][0]
            cand = [shomate(v, par0, T) for a, b, v in rs if a <= T <= b]
            rec.state((g, T))
            rec.step()
            rec.check(any(abs(got - w) < 1e-6 * max(1.0, abs(w)) for w in cand), "Shomate", lambda: "%s at %r K: %r eV, tabulated equation gives %r" % (g, T, got, cand))
            rec.check(cor.shomate_correction(g, T=T) == got, "Shomate repeated", lambda: "%s at %r K" % (g, T))
            rec.outcome((g, round(got, 1)))
        for a in [r[0] for r in rs] + [hi]:
            lower, upper = cor.shomate_correction(g, T=a - 0.001), cor.shomate_correction(g, T=min(a + 0.001, hi))
            rec.check(abs(lower - upper) < 0.05, "continuity", lambda: "%s changes by %r eV around %r K" % (g, upper - lower, a))
        f = [cor.shomate_correction(g, T=t) for t in temps]
        rec.check(all(b < a + 0.05 for a, b in zip(f, f[1:])), "decreasing", lambda: "%s: %r" % (g, list(zip(temps, f))))
        rec.trace()
    both = sorted(set(rotation_temperatures) & set(vibration_temperatures))
    for g in both:
        # No jumps on a grid of 1 K: the high-temperature forms may differ from the general ones by half a percent of the partition function.
        f = [cor.entropy_correction(g, p=1e5, T=float(T)) for T in range(49, 3002)]
        for T, x, y, z in zip(range(50, 3001), f, f[1:], f[2:]):
            rec.state((g, "grid", T))
            rec.step()
            rec.check(abs(z - 2 * y + x) < 0.006 * KB * T + 2e-5, "jump", lambda: "%s: %r, %r, %r eV at %r K and the temperatures 1 K around" % (g, x, y, z, T))
        for T in TEMPS:
            f = [cor.entropy_correction(g, p=1e5 * p, T=T) for p in PRES]
            for (p1, f1), (p2, f2) in itertools.combinations(list(zip(PRES, f)), 2):
                w = KB * T * math.log(p2 / p1)
                rec.check(abs(f2 - f1 - w) < 2e-6 * abs(w) + 1e-9, "pressure dependence", lambda: "%s at %r K: %r bar %r, %r bar %r; difference should be %r" % (g, T, p1, f1, p2, f2, w))
                rec.state((g, T, p1, p2))
                rec.step()
            # the ideal gas with the tabulated characteristic temperatures; polyatomic molecules are counted from their ground state
            th = rotation_temperatures[g]["theta"]
            if len(th) == 3 or th[0] / T <= 0.29:
                w = ideal(g, T, 1e5, rotation_temperatures[g], vibration_temperatures[g])
                rec.check(abs(f[2] - w) < 0.006 * KB * T, "ideal gas", lambda: "%s at %r K: %r eV, the partition functions give %r" % (g, T, f[2], w))
            # mass: one and a half times that of each translation
            import scaks.parsers.parser_base as pb
            mass = pb.ParserBase.get_molecular_mass(g[:-2], absolute=True)
            a, b = cor.entropy_correction(g, m=mass, p=1e5, T=T), cor.entropy_correction(g, m=4 * mass, p=1e5, T=T)
            rec.check(abs(a - f[2]) < 1e-9, "mass", lambda: "%s at %r K: %r with its own mass, %r without" % (g, T, a, f[2]))
            rec.check(abs(a - b - 1.5 * KB * T * math.log(4.0)) < 1e-5 * KB * T, "mass dependence", lambda: "%s at %r K: %r, with four times the mass %r" % (g, T, a, b))
            if T <= 750.0 and g in ranges and any(r[0] <= T - 0.01 and T + 0.01 <= r[1] for r in ranges[g]):
                S = []
                for fn, kk in ((cor.entropy_correction, dict(p=1e5)), (cor.shomate_correction, {})):
                    S.append(-(fn(g, T=T + 0.01, **kk) - fn(g, T=T - 0.01, **kk)) / 0.02 / EV * 1000.0)
                # neglected: degenerate vibrations and electronic states
                most = {"H2_g": 0.8, "N2_g": 0.4, "CO_g": 0.4, "H2O_g": 0.8, "NH3_g": 3.0, "CH4_g": 8.0, "CO2_g": 9.0, "N2O_g": 9.0, "O2_g": 9.8}.get(g, 12.5)
                rec.check(abs(S[0] - S[1]) < most, "entropies", lambda: "%s at %r K: %r J/mol/K from partition functions, %r from the Shomate equation" % (g, T, S[0], S[1]))
        rec.trace()
    rec.count("gases", len(ranges) + len(both))


def orders(c, rec):
    """Every order of asking, by models with different conditions in one process, gives what one model asked once gives."""
    mech = ref.Mech([ref.rx(STEPS[3]), ref.rx(STEPS[2]), ref.rx(STEPS[0])])
    conds = [(450.0, {"CO_g": 0.2, "O2_g": 3.0, "CO2_g": 1.0}), (600.0, {"CO_g": 0.01, "O2_g": 3.0, "CO2_g": 7.0})]
    asks = [("s", "CO_g", None), ("s", "O2_g", 700.0), ("e", "CO_g", None), ("e", "CO2_g", 500.0), ("e", "CO_g", 500.0), ("s", "CO_g", 500.0), ("r", "shomate", None), ("r", "entropy", None)]

    def ask(m, a):
        if a[0] == "s":
            return m.corrector.shomate_correction(a[1], T=a[2])
        if a[0] == "e":
            return m.corrector.entropy_correction(a[1], T=a[2])
        e = m.corrector.correct_relative_energies({"Gaf": [0.5, 0.3, 0.0], "Gar": [1.0, 0.1, 0.7], "dG": [-0.5, 0.2, -0.7]}, method=a[1])
        return {k: list(v) for k, v in e.items()}
    want = {}
    for i, (T, p) in enumerate(conds):
        for a in asks:
            want[i, a] = ask(build.mkm(mech, T=T, p=p, get_data=False), a)
    seqs = list(itertools.permutations([(i, a) for i in (0, 1) for a in asks[c["k"] * 2:c["k"] * 2 + 2]] , 4)) + [[x, y, x] for x in want for y in want][c["k"]::4]
    for seq in seqs:
        ms = [build.mkm(mech, T=T, p=p, get_data=False) for T, p in conds]
        for i, a in seq:
            got = ask(ms[i], a)
            rec.step()
            rec.check(got == want[i, a], "order of asking", lambda: "%r asked in the order %r: %r, alone %r" % ((i, a), seq, got, want[i, a]))
        rec.state(tuple(seq))
        rec.trace()
