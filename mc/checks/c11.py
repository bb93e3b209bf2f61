"""C11: coverage derivatives."""
import mpmath
from .. import ref, build, mechs, kin

PROPERTY = "C11"
TECHNIQUE = ("bounded exhaustive exploration: all one-step mechanisms over the term alphabets, all ordered pairs from a "
             "base set and the catalytic cycles, x a grid of coverages x conditions, on the real solver, against the net "
             "stoichiometric production times the net mass-action rate computed from the reaction data; site conservation")
RULE = "a state is (mechanism, condition, coverages); a transition one evaluation of the coverage derivatives"
ASSUMPTIONS = ["site conservation is the statement that the derivatives equal the net production and every step conserves "
               "sites; it is evaluated where every adsorbate occupies one site",
               "step texts of one model are pairwise different"]
bounds = kin.bounds
cases = kin.cases


def run_case(c, rec):
    for mech, cond, sets in kin.models(c):
        if not mech.ads:
            continue
        m = kin.real(mech, cond)
        s = m.solver
        kf, kr = s.get_rate_constants()
        weights = [[abs(mech.net(r, a)) for r in mech.rxns] for a in mech.ads]
        for th in sets:
            act = kin.activity(mech, cond, th)
            rf, rr, ef, er = kin.rates(mech, kf, kr, act)
            want = mech.dtheta(rf, rr)
            for give in (tuple(th), list(th)):
                got = s.steady_state_function(give)
                rec.step()
                rec.check(len(got) == len(mech.ads), "length", lambda: "%r: %d derivatives" % (mech.texts(), len(got)))
                for j in range(len(want)):
                    tol = sum(w * (a + b) for w, a, b in zip(weights[j], ef, er))
                    kin.same(rec, got[j], want[j], "d/dt of " + mech.ads[j], mech, cond, th, j, tol)
            res = s.get_residual(tuple(th))
            kin.same(rec, res, max(abs(x) for x in want), "residual", mech, cond, th, 0,
                     max(sum(w * (a + b) for w, a, b in zip(ws, ef, er)) for ws in weights))
            # site conservation: adsorbates of one site type exactly balance the
            # free sites consumed
            for site in mech.site:
                mine = [(j, a) for j, a in enumerate(mech.ads) if "*_" + mech.info[a].site == site]
                if any(mech.info[a].nsite != 1 for _, a in mine):
                    continue
                lost = -sum(mech.net(r, site) * (rf[i] - rr[i]) for i, r in enumerate(mech.rxns))
                tot = sum(got[j] for j, _ in mine)
                kin.same(rec, tot, lost, "site balance of " + site, mech, cond, th, 0, sum(a + b for a, b in zip(ef, er)) * 40)
            rec.state((tuple(mech.texts()), kin.ckey(cond), tuple(map(str, th))))
            rec.outcome(tuple(mpmath.nstr(x, 12) for x in want))
            rec.trace()
        rec.sample(dict(mechanism=mech.texts(), condition=kin.ckey(cond), coverages=[str(x) for x in th],
                        derivatives=[mpmath.nstr(x, 12) for x in want]))
