"""C13: symbolic and numeric solver paths."""
import mpmath
from .. import ref, build, mechs, kin
from .c12 import dprod

PROPERTY = "C13"
TECHNIQUE = ("bounded exhaustive exploration: one-step mechanisms over the term alphabets, ordered pairs and the catalytic "
             "cycles x conditions x coverages; every quantity is computed by the real symbolic path and by the real "
             "numeric path and both are compared with each other and with the reference")
RULE = "a state is (mechanism, condition, coverages); a transition one evaluation of a symbolic quantity"
ASSUMPTIONS = ["symbolic results carry 15 digits", "step texts of one model are pairwise different"]
CASE_LIMIT = 800

KNOWN = "sym-dtheta-no-coefficient"


def bounds(tier):
    b = kin.bounds(tier)
    b["coverages"] = "three per mechanism and condition (thorough: twelve)"
    return b


def cases(tier):
    one = [[t] for t in kin.singles("quick")]
    two = kin.pairs("quick")
    if tier == "quick":
        two = two[::4]
    out = [dict(ms=[x], tier=tier) for x in one + two]
    out += [dict(ms=[kin.BIG[k]], tier=tier) for k in sorted(kin.BIG) if tier == "thorough" or k not in ("wgs", "five")]
    return out


def tol15(scale, e):
    return e + 1e-12 * scale


def run_case(c, rec):
    for mech, cond, sets in kin.models(dict(c, tier="quick")):
        k = 3 if c["tier"] == "quick" else 12
        step = max(1, len(sets) // k)
        sets = [s for i, s in enumerate(sets) if i % step == step // 2][:k]
        m = kin.real(mech, cond, sym=True)
        s = m.solver
        kf, kr = s.get_rate_constants()
        kfs, krs = s.get_rate_constants_by_sym()
        rec.step(2)
        for i in range(len(kf)):
            kin.same(rec, kfs[i], kf[i], "symbolic kf", mech, cond, (), i, 1e-11 * abs(kf[i]))
            kin.same(rec, krs[i], kr[i], "symbolic kr", mech, cond, (), i, 1e-11 * abs(kr[i]))
        K = s.get_equilibrium_constant_syms()
        sub = s.get_subs_dict()
        for i in range(len(kf)):
            kin.same(rec, K[i].evalf(subs=sub), kf[i] / kr[i], "symbolic K", mech, cond, (), i, 1e-11 * abs(kf[i] / kr[i]))
        for th in sets:
            th = tuple(th)
            act = kin.activity(mech, cond, th)
            rf, rr, ef, er = kin.rates(mech, kf, kr, act)
            ef = [e + 1e-11 * abs(x) for e, x in zip(ef, rf)]
            er = [e + 1e-11 * abs(x) for e, x in zip(er, rr)]
            grf, grr = s.get_rates_by_sym(th)
            nrf, nrr = s.get_rates(th)
            net, nnet = s.get_net_rates_by_sym(th), s.get_net_rates(th)
            rec.step(4)
            for i in range(len(rf)):
                for x, y, z, e, w in ((grf, nrf, rf, ef, "forward"), (grr, nrr, rr, er, "reverse")):
                    kin.same(rec, x[i], z[i], "symbolic %s rate" % w, mech, cond, th, i, e[i])
                    kin.same(rec, y[i], z[i], "numeric %s rate" % w, mech, cond, th, i, e[i])
                kin.same(rec, net[i], rf[i] - rr[i], "symbolic net rate", mech, cond, th, i, ef[i] + er[i])
                kin.same(rec, nnet[i], rf[i] - rr[i], "numeric net rate", mech, cond, th, i, ef[i] + er[i])
            tof, ntof = s.get_tof_by_sym(th), s.get_tof(th)
            rec.step(2)
            want = mech.tof(rf, rr)
            sc = sum(a + b for a, b in zip(ef, er)) * 24
            rec.check(len(tof) == len(ntof), "tof length", lambda: "%r: %d and %d turnover frequencies" % (mech.texts(), len(tof), len(ntof)))
            for j in range(len(mech.gas)):
                kin.same(rec, tof[j], want[j], "symbolic turnover", mech, cond, th, j, sc)
                kin.same(rec, ntof[j], want[j], "numeric turnover", mech, cond, th, j, sc)
            if not mech.ads:
                continue
            dt, ndt = s.steady_state_function_by_sym(th), s.steady_state_function(th)
            rec.step(2)
            wd = mech.dtheta(rf, rr)
            for j, a in enumerate(mech.ads):
                tol = sum((abs(mech.net(r, a)) or 1) * (x + y) for r, x, y in zip(mech.rxns, ef, er))
                kin.same(rec, ndt[j], wd[j], "numeric d/dt", mech, cond, th, j, tol)
                if abs(mpmath.mpf(dt[j]) - wd[j]) > tol and abs(mpmath.mpf(dt[j]) - defect(mech, a, [x - y for x, y in zip(rf, rr)])) <= tol:
                    rec.fail(KNOWN, "symbolic derivative of %s ignores the coefficient" % a)
                else:
                    kin.same(rec, dt[j], wd[j], "symbolic d/dt", mech, cond, th, j, tol)
            J, nJ = s.analytical_jacobian_by_sym(th), s.analytical_jacobian(th)
            rec.step(2)
            n = len(mech.ads)
            rec.check((J.rows, J.cols) == (n, n) == (nJ.rows, nJ.cols), "shape", lambda: "%r: Jacobian %dx%d" % (mech.texts(), J.rows, J.cols))
            pos = {kk: abs(v) + mpmath.mpf("4e-15") for kk, v in act.items()}
            for j, b in enumerate(mech.ads):
                D = [dprod(r.IS, kf[i], act, b, mech, False) - dprod(r.FS, kr[i], act, b, mech, False) for i, r in enumerate(mech.rxns)]
                M = [dprod(r.IS, kf[i], pos, b, mech, True) + dprod(r.FS, kr[i], pos, b, mech, True) for i, r in enumerate(mech.rxns)]
                for i, a in enumerate(mech.ads):
                    w = sum(mech.net(r, a) * d for r, d in zip(mech.rxns, D))
                    tol = sum((abs(mech.net(r, a)) or 1) * x for r, x in zip(mech.rxns, M)) * mpmath.mpf(10) ** -9
                    kin.same(rec, nJ[i, j], w, "numeric Jacobian", mech, cond, th, i, tol)
                    if abs(mpmath.mpf(J[i, j]) - w) > tol and abs(mpmath.mpf(J[i, j]) - defect(mech, a, D)) <= tol:
                        rec.fail(KNOWN, "symbolic Jacobian of %s ignores the coefficient" % a)
                    else:
                        kin.same(rec, J[i, j], w, "symbolic Jacobian", mech, cond, th, i, tol)
            rec.state((tuple(mech.texts()), kin.ckey(cond), tuple(map(str, th))))
            rec.outcome(tuple(mpmath.nstr(x, 12) for x in wd))
            rec.trace()
        rec.sample(dict(mechanism=mech.texts(), condition=kin.ckey(cond)))


def defect(mech, a, net):
    """The recorded defect: the symbolic path counts every step in which the
    adsorbate occurs once, with the sign of its first occurrence."""
    tot = mpmath.mpf(0)
    for r, x in zip(mech.rxns, net):
        for k, st in enumerate(r.states):
            if any(t.name() == a for t in st):
                tot += -x if k == 0 else x
                break
    return tot
