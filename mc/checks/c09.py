"""C09: event rates with pressures; collision theory."""
import itertools
import math
from .. import ref, build, mechs, kin

PROPERTY = "C09"
TECHNIQUE = ("bounded exhaustive exploration: all one-step mechanisms over the term alphabets in both directions x a grid "
             "of pressures, temperatures and energies on the real solver against rate constant times pressures; every "
             "combination of collision-theory parameters including the refused ones against the impingement formula")
RULE = "a state is (reaction, pressures, temperature, energies) or one collision-theory parameter set"
ASSUMPTIONS = ["collision theory is defined for directions that consume one gas molecule, pressures are given in bar-like "
               "units of P0 there", "molecular masses are the subject of C35"]

MASS = {"C": 12.0107, "O": 15.9994, "H": 1.00794, "N": 14.0067, "Cl": 35.453}
EA = [0.0, 0.1, 0.75, 2.0, -0.05]
AUC = [9.64e-20, 1e-19, 2.5e-18]
ACT = [1.0, 0.5, 0.125, 0.0]
TEM = [298.15, 450.0, 1000]
PRS = [101325.0, 1.0, 5e6, 0.0]
SF = [1.0, 0.5]
PSETS = [[1.0, 1.0], [0.25, 4.0], [0.0, 2.0], [3, 0.5]]


def bounds(tier):
    return dict(reactions=len(pool(tier)), pressures=len(PSETS), temperatures=len(TEM),
                mean_field_mechanisms=[[CT[i] for i in x] for x in MEAN], collision=len(EA) * len(AUC) * len(ACT) * len(TEM) * len(PRS) * len(SF) * 4)


def pool(tier):
    one = kin.singles(tier)
    return one


CT = ["CO_g + *_s -> CO_s", "CO_s -> CO_g + *_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s", "2O_s <-> O-O_2s -> O2_g + 2*_s",
      "CO_s + *_t -> CO_t + *_s", "NH3_g + *_s -> NH3_s", "CO_s -> *_s + CO_g", "2CO_s -> 2CO_g + 2*_s", "2*_s + O2_g -> 2O_s",
      "*_s + NH3_g <-> NH3-_s -> NH3_s", "2*_s + 2NO_s -> N2_g + 2O_s + 2*_s", "CO_s + O_s -> 2*_s + CO2_g", "3H_s + N_s -> 4*_s + NH3_g", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "H2_g + 2*_s -> 2H_s"]


# several steps at once, for the mean-field solver
MEAN = [(0, 2, 13), (13, 2, 0), (1, 3, 4), (14, 5, 12), (4, 13, 14, 10), (8, 6), (9, 0, 4)]


def cases(tier):
    one = pool(tier)
    out = [dict(part="tst", ts=one[i:i + 6]) for i in range(0, len(one), 6)]
    out += [dict(part="kct", T=T, m=m) for T in TEM for m in (4.65e-26, 3.3e-27, 7.3e-26, 1e-24)]
    out += [dict(part="inv", T=T) for T in TEM + [77.0, 2000.0]]
    out += [dict(part="ctrxn", t=t) for t in CT]
    out += [dict(part="refuse")]
    out += [dict(part="meanct", mech=[CT[i] for i in x], T=T) for x in MEAN for T in TEM]
    return out


def rel(a, b, tol=1e-10):
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(abs(a), abs(b)) or (abs(a) < 1e-300 and abs(b) < 1e-300)


def tst(c, rec):
    for t in c["ts"]:
        r = ref.rx(t)
        for r, txt in ((r, r.text()), (r.rev(), r.rev().text())):
            mech = ref.Mech([r])
            for ps in PSETS:
                p = {g: ps[i % 2] for i, g in enumerate(mech.gas)}
                for T in (450.0, 777):
                    m = build.mkm(mech, p=p, T=T)
                    for e in ({"Gaf": [0.6], "Gar": [0.9], "dG": [-0.3]}, {"Gaf": [1.4], "Gar": [0.0], "dG": [1.4]}):
                        rec.state((txt, tuple(ps), T, e["Gaf"][0]))
                        base = m.solver.get_rxn_rates_TST(txt, e)
                        inc = m.solver.get_rxn_rates_TST(txt, e, include_pressure=True)
                        rec.step(2)
                        rec.trace()
                        for st, b, w, g in ((r.IS, base[0], inc[0], "Gaf"), (r.FS, base[1], inc[1], "Gar")):
                            k = ref.KB_EV * T / ref.H_EV * math.exp(-e[g][0] / (ref.KB_EV * T))
                            rec.check(rel(b, k), "constant", lambda: "%r: rate without pressure %s, expected %s" % (txt, b, k))
                            f = 1.0
                            for x in st:
                                if x.kind() == "gas":
                                    f *= float(p[x.name()]) ** x.n
                            rec.check(rel(w, k * f), "pressure", lambda: "%r p=%r: %s rate with pressure %s, expected %s" % (txt, p, g, w, k * f))
                        rec.outcome((txt, float(inc[0]), float(inc[1])))
    rec.sample(dict(reaction=txt, pressures=p, rates=[float(inc[0]), float(inc[1])]))


def kct(c, rec):
    from scaks.solvers.solver_base import SolverBase
    T, m = c["T"], c["m"]
    mech = ref.Mech(CT[:1])
    s = build.mkm(mech, T=T).solver
    for Ea, A, a, p, f in itertools.product(EA, AUC, ACT, PRS, SF):
        rec.state((T, m, Ea, A, a, p, f))
        rec.step()
        w = f * a * math.exp(-Ea / (ref.KB_EV * T)) * p * A / math.sqrt(2 * math.pi * m * ref.KB_J * T)
        v = s.get_kCT(Ea=Ea, Auc=A, act_ratio=a, m=m, T=T, p=p, f=f)
        rec.check(rel(v, w), "kCT", lambda: "kCT(Ea=%r, Auc=%r, act=%r, m=%r, T=%r, p=%r, f=%r) = %r, expected %r" % (Ea, A, a, m, T, p, f, v, w))
        if p == PRS[0]:
            rec.check(rel(s.get_kCT(Ea=Ea, Auc=A, act_ratio=a, m=m, T=T, f=f), w), "default p", "default pressure is not P0")
        if f == 1.0:
            rec.check(rel(s.get_kCT(Ea, A, a, m, T, p), w), "default f", "default sticking factor is not one")
        if w > 0:
            G = s.get_TST_barrier_from_CT(v, T)
            rec.check(rel(s.get_kTST(G, T), w, 1e-9), "equivalent barrier", lambda: "barrier %r for rate %r gives %r" % (G, w, s.get_kTST(G, T)))
        rec.trace()
        rec.outcome(float(v))
    for a, f in itertools.product([1.0, 1.0 + 1e-9, 1.5, 2, 1], [1.0, 1.0 + 1e-9, 1.25, 3, 1]):
        if a <= 1 and f <= 1:
            s.get_kCT(Ea=0.1, Auc=1e-19, act_ratio=a, m=m, T=T, f=f)
            continue
        rec.step()
        try:
            s.get_kCT(Ea=0.1, Auc=1e-19, act_ratio=a, m=m, T=T, f=f)
        except Exception:
            rec.outcome((a, f))
            continue
        rec.fail("not refused", "active fraction %r with sticking factor %r accepted" % (a, f))
    rec.sample(dict(Ea=Ea, Auc=A, active=a, p=p, f=f))


def inv(c, rec):
    T = c["T"]
    s = build.mkm(ref.Mech(CT[:1]), T=T).solver
    for e in range(-30, 20):
        for x in (1.0, 2.5, 7.7):
            k = x * 10.0 ** e
            G = s.get_TST_barrier_from_CT(k, T)
            rec.step()
            rec.state((T, k))
            rec.trace()
            rec.outcome(float(G))
            rec.check(rel(s.get_kTST(G, T), k, 1e-8), "equivalent barrier", lambda: "barrier %r for rate %r at %r K gives %r" % (G, k, T, s.get_kTST(G, T)))
    rec.sample(dict(T=T, k=k, G=float(G)))


def ctrxn(c, rec):
    """get_rxn_rates_CT of a whole step"""
    t = c["t"]
    r = ref.rx(t)
    mech = ref.Mech([r])
    gas_is = [x for x in r.IS if x.kind() == "gas"]
    gas_fs = [x for x in r.FS if x.kind() == "gas"]
    for T, A, act, ps in itertools.product((300.0, 450.0, 800), AUC, (1.0, 0.25), PSETS):
        p = {g: ps[i % 2] for i, g in enumerate(mech.gas)}
        m = build.mkm(mech, p=p, T=T, unitcell_area=A, active_ratio=act, rate_algo="CT")
        for e in ({"Gaf": [0.25], "Gar": [0.75], "dG": [-0.5]}, {"Gaf": [1.5], "Gar": [0.5], "dG": [1.0]}):
            for inc in (False, True):
                if inc and 0.0 in [p[x.name()] for x in gas_is + gas_fs]:
                    continue
                rf, rr = m.solver.get_rxn_rates_CT(t, e, include_pressure=inc)
                rec.step()
                rec.state((t, T, A, act, tuple(ps), inc, e["Gaf"][0]))
                rec.trace()
                rec.outcome((float(rf), float(rr)))
                if gas_is:
                    mass = sum(MASS[el] * n for fr in gas_is[0].sp for el, n in fr) * 1.66053886e-27
                    pr = ref.P0 * (p[gas_is[0].name()] if inc else 1.0)
                    w = act * math.exp(-e["Gaf"][0] / (ref.KB_EV * T)) * pr * A / math.sqrt(2 * math.pi * mass * ref.KB_J * T)
                    # masses come from the code's own table (C35), 1 permille
                    rec.check(rel(rf, w, 1e-3), "adsorption rate", lambda: "%r T=%r A=%r act=%r p=%r: %r, expected %r" % (t, T, A, act, pr, rf, w))
                    if inc:
                        r0, r1 = m.solver.get_rxn_rates_CT(t, e)
                        if gas_is[0].n == 1:
                            rec.check(rel(rr, r1, 1e-8), "unaffected", lambda: "%r: the reverse of an adsorption is %r with and %r without the pressure %r" % (t, rr, r1, p))
                        rec.check(rel(rf, r0 * p[gas_is[0].name()]), "pressure", lambda: "%r: adsorption rate %r with and %r without pressure %r" % (t, rf, r0, p))
                elif not gas_fs:
                    k = lambda g: ref.KB_EV * T / ref.H_EV * math.exp(-g / (ref.KB_EV * T))
                    rec.check(rel(rf, k(e["Gaf"][0])) and rel(rr, k(e["Gar"][0])), "surface step", lambda: "%r: %r %r" % (t, rf, rr))
                else:
                    k = ref.KB_EV * T / ref.H_EV * math.exp(-e["Gaf"][0] / (ref.KB_EV * T))
                    rec.check(rel(rf, k), "desorption", lambda: "%r: desorption rate %r, expected %r" % (t, rf, k))
                    if inc:
                        r0, r1 = m.solver.get_rxn_rates_CT(t, e)
                        rec.check(rel(rf, r0), "unaffected", lambda: "%r: desorption depends on the pressure" % t)
                        rec.check(rel(rr, r1 * p[gas_fs[0].name()] ** gas_fs[0].n, 1e-8), "readsorption", lambda: "%r: readsorption rate %r with and %r without pressure %r" % (t, rr, r1, p))
    rec.sample(dict(reaction=t, T=T, rates=[float(rf), float(rr)]))


def meanct(c, rec):
    """the rate constants and rates of a whole mean-field model under collision theory"""
    mech, T = ref.Mech(c["mech"]), c["T"]
    k = len(mech.rxns)
    ga, dg = [0.25, 1.5, 0.7, 0.45][:k], [-0.5, 0.3, -0.1, 0.2][:k]
    own = {"Gaf": ga, "dG": dg, "Gar": [a - d for a, d in zip(ga, dg)]}
    other = dict((n, v[1:] + v[:1]) for n, v in own.items())
    for A, act, ps in itertools.product(AUC, (1.0, 0.25), PSETS):
        p = {g: ps[i % 2] for i, g in enumerate(mech.gas)}
        opt = dict(p=p, T=T, unitcell_area=A, active_ratio=act)
        m = build.mkm(mech, energies=(ga, dg), rate_algo="CT", **opt)
        plain = build.mkm(mech, energies=(ga, dg), **opt)
        for e, passed in ((own, None), (other, other), (own, None)):
            kf, kr = m.solver.get_rate_constants(relative_energies=passed)
            rec.step()
            rec.state((tuple(c["mech"]), T, A, act, tuple(ps), passed is None))
            for i, r in enumerate(mech.rxns):
                what = "step %d of %r at %r K, area %r, active %r, energies %s" % (i, c["mech"], T, A, act, "passed" if passed else "own")
                one = build.mkm(ref.Mech([r]), rate_algo="CT", **dict(opt, p={g: 1.0 for g in ref.Mech([r]).gas}))
                w = one.solver.get_rxn_rates_CT(r.text(), dict((n, [v[i]]) for n, v in e.items()))
                rec.check(rel(kf[i], w[0]) and rel(kr[i], w[1]), "constants of the model", lambda: "%s: %s, %s, the step alone has %s, %s" % (what, kf[i], kr[i], w[0], w[1]))
                gas = [x for x in r.IS if x.kind() == "gas"]
                if gas:
                    mass = sum(MASS[el] * n for fr in gas[0].sp for el, n in fr) * 1.66053886e-27
                    w = act * math.exp(-e["Gaf"][i] / (ref.KB_EV * T)) * ref.P0 * A / math.sqrt(2 * math.pi * mass * ref.KB_J * T)
                    rec.check(rel(kf[i], w, 1e-3), "adsorption constant", lambda: "%s: %s, expected %s" % (what, kf[i], w))
            th = [0.3 / len(mech.ads)] * len(mech.ads)
            actv = mech.free(th, {s: 1.0 for s in mech.site})
            actv.update(p)
            wf, wr = mech.rates(kf, kr, actv)
            rf, rr = m.solver.get_rates(tuple(th), relative_energies=passed)
            for i in range(k):
                rec.check(rel(rf[i], wf[i]) and rel(rr[i], wr[i]), "rates", lambda: "%r: rates %s %s, expected %s %s" % (c["mech"], rf[i], rr[i], wf[i], wr[i]))
            rec.outcome(tuple(float(x) for x in list(kf) + list(kr)))
        # the model beside it keeps its own way
        w = ref.KB_EV * T / ref.H_EV * math.exp(-ga[0] / (ref.KB_EV * T))
        rec.check(rel(plain.solver.get_rate_constants()[0][0], w), "other model", "transition state theory beside collision theory")
        rec.trace()
    for algo in ("ct", "TSTCT", "", "Eyring"):
        rec.step()
        rec.state(algo)
        try:
            m = build.mkm(mech, energies=(ga, dg), rate_algo=algo, unitcell_area=1e-19, active_ratio=1.0)
            m.solver.get_rate_constants()
        except Exception:
            rec.outcome(algo)
            continue
        rec.fail("unknown algorithm", "rate_algo %r is accepted" % algo)
    rec.sample(dict(mechanism=c["mech"], T=T, kf=[float(x) for x in kf]))


def refuse(c, rec):
    e = {"Gaf": [0.25], "Gar": [0.75], "dG": [-0.5]}
    for t in CT:
        for A in (0.0, -1e-19, None):
            mech = ref.Mech([t])
            m = build.mkm(mech, T=450.0, unitcell_area=A, rate_algo="CT")
            rec.step()
            rec.state((t, A))
            try:
                m.solver.get_rxn_rates_CT(t, e)
            except Exception:
                rec.outcome((t, A))
                continue
            rec.fail("area", "%r: cell area %r accepted" % (t, A))
        for act in (1.0001, 2.0, 17):
            m = build.mkm(ref.Mech([t]), T=450.0, unitcell_area=1e-19, active_ratio=act, rate_algo="CT")
            if any(x.kind() == "gas" for x in ref.rx(t).IS):
                rec.step()
                try:
                    m.solver.get_rxn_rates_CT(t, e)
                except Exception:
                    rec.outcome((t, act))
                    continue
                rec.fail("active fraction", "%r: active fraction %r accepted" % (t, act))
    rec.sample("refusals")


def run_case(c, rec):
    globals()[c["part"]](c, rec)
