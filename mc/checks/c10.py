"""C10: law of mass action."""
import itertools
import mpmath
from .. import ref, build, mechs, kin

PROPERTY = "C10"
TECHNIQUE = ("bounded exhaustive exploration: all one-step mechanisms over the term alphabets, all ordered pairs from a "
             "base set and the catalytic cycles, x a grid of coverages x conditions, on the real solver, against the "
             "mass-action product computed from the reaction data")
RULE = "a state is (mechanism, condition, coverages); a transition one evaluation of rates, net rates or turnover"
ASSUMPTIONS = ["rate constants themselves are the subject of C08", "step texts of one model are pairwise different"]

bounds = kin.bounds
cases = kin.cases


def run_case(c, rec):
    for mech, cond, sets in kin.models(c):
        m = kin.real(mech, cond)
        s = m.solver
        kf, kr = s.get_rate_constants()
        for th in sets:
            act = kin.activity(mech, cond, th)
            rf, rr, ef, er = kin.rates(mech, kf, kr, act)
            # coverages may be given as floats, tuples or lists
            for give in (tuple(th), list(th)):
                grf, grr = s.get_rates(give)
                rec.step()
                for i in range(len(rf)):
                    kin.same(rec, grf[i], rf[i], "forward rate", mech, cond, th, i, ef[i])
                    kin.same(rec, grr[i], rr[i], "reverse rate", mech, cond, th, i, er[i])
            net = s.get_net_rates(tuple(th))
            rec.step()
            for i in range(len(rf)):
                kin.same(rec, net[i], rf[i] - rr[i], "net rate", mech, cond, th, i, ef[i] + er[i])
            tof = s.get_tof(tuple(th))
            rec.step()
            names = mech.gas + mech.liq
            want = mech.tof(rf, rr)
            n = len(mech.gas)
            sc = sum(a + b for a, b in zip(ef, er)) * 24
            rec.check(len(tof) >= n, "tof length", lambda: "%r: %d turnover frequencies for %r" % (mech.texts(), len(tof), names))
            for j, g in enumerate(mech.gas):
                kin.same(rec, tof[j], want[j], "turnover of " + g, mech, cond, th, j, sc)
                if len(th) < 4:
                    kin.same(rec, s.get_tof(tuple(th), gas_name=g), want[j], "single turnover of " + g, mech, cond, th, j, sc)
            rec.state((tuple(mech.texts()), kin.ckey(cond), tuple(map(str, th))))
            rec.outcome(tuple(mpmath.nstr(x, 12) for x in want))
            rec.trace()
        rec.sample(dict(mechanism=mech.texts(), condition=kin.ckey(cond), coverages=[str(x) for x in th]))
