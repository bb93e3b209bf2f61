"""C08: transition state theory rate constants and detailed balance."""
import itertools
import mpmath
from .. import ref, build, mechs

PROPERTY = "C08"
TECHNIQUE = ("bounded exhaustive exploration: every (temperature, barrier, reaction energy, precision) of a grid and every "
             "short history of calls (own energies, passed energies, mutations, two models) on the real solver, against "
             "the Eyring formula evaluated with the declared precision")
RULE = ("a state is (mechanism, temperature, energies in effect); a transition one evaluation of the rate constants")
ASSUMPTIONS = ["the constants kB, h of the model's own database define the formula"]

TEMPS = [200, 298.15, 450.0, 623.5, 1000.0, 1500.0]
GA = [0.0, 1e-12, 0.05, 0.83, 2.4, 7.0]
DG = [-3.1, -0.7, -1e-9, 0.0, 0.04, 0.6, 1.9]
MECH = ["CO_g + *_s -> CO_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"]
TERR = [["CO_g + *_s -> CO_s"], MECH, ["H2O_l + *_s -> H2O_s", "H2O_s -> H2O_g + *_s"]]
REFUSE = [{"Gaf": [0.1] * 3, "dG": [0.0] * 3}, {"Gar": [0.1] * 3, "dG": [0.0] * 3}, {"dG": [0.0] * 3}]


def bounds(tier):
    return dict(temperatures=len(temps(tier)), barriers=len(GA), energies=len(DG), precisions=[15, 50, 100],
                history_depth=3 if tier == "quick" else 4)


def temps(tier):
    return TEMPS if tier == "quick" else TEMPS + [1, 5.5, 77.0, 300, 330.25, 500, 777.7, 2500.0, 6000]


def cases(tier):
    out = [dict(part="grid", T=T, dps=d) for T in temps(tier) for d in (15, 50, 100)]
    out += [dict(part="ktst", T=T) for T in temps(tier)]
    ops = ["own", "e0", "e1", "mut", "ret", "reload", "argmut"]
    n = 3 if tier == "quick" else 4
    for a, b in itertools.product(ops, repeat=2):
        out.append(dict(part="hist", first=[a, b], n=n))
    out.append(dict(part="refuse"))
    return out


def k(T, G, dps):
    with mpmath.workdps(dps + 15):
        kB, h = mpmath.mpf(ref.KB_EV), mpmath.mpf(ref.H_EV)
        return kB * T / h * mpmath.exp(-mpmath.mpf(G) / (kB * T))


def near(a, b, dps, G=0, T=1):
    # rounding of the argument of exp costs as many digits as the argument has
    # figures before the point; one extra figure for the arithmetic
    with mpmath.workdps(dps + 15):
        arg = abs(float(G)) / (8.6e-5 * float(T)) + 1
        return abs(mpmath.mpf(a) - b) <= abs(b) * mpmath.mpf(10) ** (-dps + 2) * max(1, arg)


def verify(m, rec, T, gaf, gar, dps, what):
    kf, kr = m[0]
    rec.check(len(kf) == len(gaf) and len(kr) == len(gar), "length", "%s: %d/%d constants for %d steps" % (what, len(kf), len(kr), len(gaf)))
    for i in range(len(gaf)):
        rec.check(near(kf[i], k(T, gaf[i], dps), dps, gaf[i], T), "kf", lambda: "%s: step %d forward barrier %r at %r K gives %s, expected %s" % (what, i, gaf[i], T, kf[i], k(T, gaf[i], dps)))
        rec.check(near(kr[i], k(T, gar[i], dps), dps, gar[i], T), "kr", lambda: "%s: step %d reverse barrier %r at %r K gives %s, expected %s" % (what, i, gar[i], T, kr[i], k(T, gar[i], dps)))
        dG = gaf[i] - gar[i]
        with mpmath.workdps(dps + 15):
            K = mpmath.exp(-mpmath.mpf(dG) / (mpmath.mpf(ref.KB_EV) * T))
            # dG is rounded in double precision
            rec.check(abs(mpmath.mpf(kf[i]) / mpmath.mpf(kr[i]) / K - 1) < 1e-9, "detailed balance",
                      lambda: "%s: step %d kf/kr=%s, equilibrium constant %s" % (what, i, kf[i] / kr[i], K))
    rec.step()


def run_case(c, rec):
    if c["part"] == "grid":
        T, dps = c["T"], c["dps"]
        for texts in TERR:
            mech = ref.Mech(texts)
            n = len(texts)
            pairs = list(itertools.product(GA, DG))
            m = build.mkm(mech, T=T, decimal_precision=dps)
            for j in range(0, len(pairs)):
                sel = [pairs[(j + 11 * q) % len(pairs)] for q in range(n)]
                ga, dg = [p[0] for p in sel], [p[1] for p in sel]
                m.parser.parse_data(filename="no-such", energy_data={"Ga": ga, "dG": dg})
                e = m.relative_energies
                rec.state((n, T, dps, tuple(sel)))
                verify([m.solver.get_rate_constants()], rec, T, e["Gaf"], e["Gar"], dps, "%r own energies" % (texts,))
                # passed energies: a rotated assignment
                o = {kk: v[1:] + v[:1] for kk, v in e.items()}
                o["Gaf"] = [x + 0.125 for x in o["Gaf"]]
                o["Gar"] = [x + 0.125 for x in o["Gar"]]
                verify([m.solver.get_rate_constants(relative_energies=o)], rec, T, o["Gaf"], o["Gar"], dps, "passed energies")
                verify([m.solver.get_rate_constants(relative_energies=None)], rec, T, e["Gaf"], e["Gar"], dps, "own energies after passed ones")
                rec.trace()
                rec.outcome((n, T, dps, tuple(sel)))
        rec.sample(dict(T=T, dps=dps, mechanism=TERR[1]))
    elif c["part"] == "ktst":
        T = c["T"]
        for dps in (15, 50, 100):
            m = build.mkm(ref.Mech(MECH), T=450.0, decimal_precision=dps)
            for G in sorted(set(GA + DG)):
                rec.state((T, dps, G))
                rec.step()
                v = m.solver.get_kTST(G, T)
                rec.check(near(v, k(T, G, dps), dps, G, T), "kTST", lambda: "get_kTST(%r, %r) = %s, expected %s" % (G, T, v, k(T, G, dps)))
                # energies that have more digits than double precision
                with mpmath.workdps(dps + 15):
                    H = mpmath.mpf(G) + mpmath.mpf("0.1") / 3 ** 6
                with mpmath.workdps(dps):
                    H, Hr = +H, H + mpmath.mpf("0.3")
                v = m.solver.get_kTST(H, T)
                rec.check(near(v, k(T, H, dps), dps, H, T), "kTST", lambda: "get_kTST(%s, %r) = %s, expected %s" % (H, T, v, k(T, H, dps)))
                if T == 450.0:
                    e = {"Gaf": [H] * 3, "Gar": [Hr] * 3, "dG": [H - Hr] * 3}
                    kf, kr = m.solver.get_rate_constants(relative_energies=e)
                    for i in range(3):
                        rec.check(near(kf[i], k(T, H, dps), dps, H, T) and near(kr[i], k(T, Hr, dps), dps, Hr, T), "constants",
                                  lambda: "energies %s, %s at %d digits give %s, %s" % (H, Hr, dps, kf[i], kr[i]))
                rec.step()
    elif c["part"] == "hist":
        ops = ["own", "e0", "e1", "mut", "ret", "reload", "argmut"]
        for rest in itertools.product(ops, repeat=c["n"] - 2):
            hist(c["first"] + list(rest), rec)
    else:
        m = build.mkm(ref.Mech(MECH), energies=([0.1, 0.2, 0.3], [0.0, -0.1, 0.1]))
        for bad in REFUSE:
            rec.step()
            try:
                m.solver.get_rate_constants(relative_energies=bad)
            except Exception as x:
                from scaks.errors.error import ParameterError
                rec.check(isinstance(x, ParameterError), "refusal", lambda: "energies with keys %r end in %s: %s, not in a ParameterError" % (sorted(bad), type(x).__name__, x))
                rec.trace()
            else:
                rec.fail("refused", "energies with keys %r are accepted" % (sorted(bad),))
            rec.state(tuple(sorted(bad)))
            rec.outcome(tuple(sorted(bad)))
        m = build.mkm(ref.Mech(MECH))
        try:
            m.solver.get_rate_constants()
            rec.fail("none", "rate constants without any energies")
        except AttributeError:
            pass
        rec.sample("refusals")


def hist(ops, rec):
    """A history of calls on two models that differ in temperature."""
    T = [450.0, 500.0]
    mech = ref.Mech(MECH)
    base = [([0.0, 0.3, 1.1], [-0.5, -0.6, 0.4]), ([0.0, 0.3, 1.1], [-0.5, -0.6, 0.4])]
    ms = [build.mkm(mech, energies=base[i], T=T[i]) for i in (0, 1)]
    cur = [rel(*base[0]), rel(*base[1])]
    arg = rel([0.2, 0.9, 0.7], [-0.2, 0.1, 0.3])
    arg2 = rel([1.2, 0.8, 0.6], [0.2, -0.1, -0.3])
    last = None
    for i, op in enumerate(ops):
        w = i % 2 if op != "own" else 1 - i % 2
        if op == "own":
            for j in (0, 1):
                last = ms[j].solver.get_rate_constants()
                verify([last], rec, T[j], cur[j]["Gaf"], cur[j]["Gar"], 50, "%r own" % (ops,))
        elif op in ("e0", "e1"):
            a = arg if op == "e0" else arg2
            for j in (0, 1):
                last = ms[j].solver.get_rate_constants(relative_energies=a)
                verify([last], rec, T[j], a["Gaf"], a["Gar"], 50, "%r passed" % (ops,))
        elif op == "mut":
            arg["Gaf"][1] += 0.25
            arg["Gar"][1] += 0.25
        elif op == "argmut":
            arg2["Gaf"][0], arg2["Gar"][0] = arg2["Gaf"][0] + 0.5, arg2["Gar"][0] + 0.5
        elif op == "ret" and last is not None:
            last[0][0] = 12345
            del last[1][:]
            last = None
        elif op == "reload":
            ga = [x + 0.01 * (i + 1) for x in base[w][0]]
            ms[w].parser.parse_data(filename="no-such", energy_data={"Ga": ga, "dG": list(base[w][1])})
            cur[w] = rel(ga, base[w][1])
    for j in (0, 1):
        verify([ms[j].solver.get_rate_constants()], rec, T[j], cur[j]["Gaf"], cur[j]["Gar"], 50, "%r final own" % (ops,))
        verify([ms[j].solver.get_rate_constants(relative_energies=arg)], rec, T[j], arg["Gaf"], arg["Gar"], 50, "%r final passed" % (ops,))
    rec.state(tuple(ops))
    rec.outcome(tuple(ops))
    rec.trace()


def rel(ga, dg):
    ga = [d if abs(g) < 1e-10 and d > 0 else g for g, d in zip(ga, dg)]
    return {"Gaf": list(ga), "dG": list(dg), "Gar": [g - d for g, d in zip(ga, dg)]}
