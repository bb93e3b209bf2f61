"""C12: the analytical Jacobian."""
import mpmath
from .. import ref, build, mechs, kin

PROPERTY = "C12"
TECHNIQUE = ("bounded exhaustive exploration: all one-step mechanisms over the term alphabets, all ordered pairs from a "
             "base set and the catalytic cycles, x a grid of coverages x conditions, on the real solver, against the "
             "partial derivatives obtained by forward-mode differentiation of the mass-action model")
RULE = "a state is (mechanism, condition, coverages); a transition one evaluation of the Jacobian"
ASSUMPTIONS = ["the derivative is the one of the coverage derivatives defined in C11 with free sites = total minus coverages",
               "step texts of one model are pairwise different"]
bounds = kin.bounds
cases = kin.cases


def run_case(c, rec):
    for mech, cond, sets in kin.models(c):
        if not mech.ads:
            continue
        m = kin.real(mech, cond)
        s = m.solver
        kf, kr = s.get_rate_constants()
        for th in sets:
            act = kin.activity(mech, cond, th)
            J = jac(mech, kf, kr, act)
            up = dict(act)
            for site in mech.site:
                up[site] = act[site] + mpmath.mpf("4e-15")
            mag = jac(mech, kf, kr, up, True)
            ab = jac(mech, kf, kr, {k: abs(v) for k, v in act.items()}, True)
            got = s.analytical_jacobian(tuple(th))
            rec.step()
            n = len(mech.ads)
            rec.check(got.rows == n and got.cols == n, "shape", lambda: "%r: Jacobian %d x %d" % (mech.texts(), got.rows, got.cols))
            for i in range(n):
                for j in range(n):
                    tol = abs(mag[i][j] - ab[i][j]) + 1e-12 * ab[i][j]
                    kin.same(rec, got[i, j], J[i][j], "d(d%s/dt)/d%s" % (mech.ads[i], mech.ads[j]), mech, cond, th, i, tol)
            rec.state((tuple(mech.texts()), kin.ckey(cond), tuple(map(str, th))))
            rec.outcome(tuple(mpmath.nstr(x, 12) for r in J for x in r))
            rec.trace()
        # the numerical derivative of the real code, away from the kinks of nothing
        rec.sample(dict(mechanism=mech.texts(), condition=kin.ckey(cond), coverages=[str(x) for x in th]))


def dprod(state, k, act, wrt, mech, mag):
    """d/d wrt of k * prod act^n by the product rule"""
    n = {}
    for t in state:
        n[t.name()] = n.get(t.name(), 0) + t.n
    site = "*_" + mech.info[wrt].site
    tot = mpmath.mpf(0)
    for name in (wrt, site):
        if name not in n:
            continue
        v = k * n[name] * act[name] ** (n[name] - 1)
        for o, p in n.items():
            if o != name:
                v = v * act[o] ** p
        tot += v if (name == wrt or mag) else -v
    return tot


def jac(mech, kf, kr, act, mag=False):
    out = []
    D = [[(dprod(r.IS, kf[i], act, b, mech, mag), dprod(r.FS, kr[i], act, b, mech, mag)) for b in mech.ads]
         for i, r in enumerate(mech.rxns)]
    for a in mech.ads:
        row = []
        for j in range(len(mech.ads)):
            v = mpmath.mpf(0)
            for i, r in enumerate(mech.rxns):
                n = mech.net(r, a)
                f, b = D[i][j]
                v += abs(n) * (f + b) if mag else n * (f - b)
            row.append(v)
        out.append(row)
    return out
