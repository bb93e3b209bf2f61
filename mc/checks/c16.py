"""C16: degrees of rate control."""
import copy
import itertools
import os
import mpmath
from .. import ref, build, steady, core, kin
from . import c12
from .c18 import canon

PROPERTY = "C16"
TECHNIQUE = ("bounded exhaustive exploration on the real solver: mechanisms x energies x conditions x products x perturbation sizes x root finders x "
             "own or passed energies x every point at which a perturbed search fails; the degrees are compared with the difference quotient and the "
             "logarithmic derivative computed by the mass-action reference at 80 digits, the model before and after is compared as data")
RULE = "a state is (mechanism, energies, condition, product, perturbation, way of calling); a transition one rate control calculation"
ASSUMPTIONS = ["the sum rule and the comparison with the derivative hold up to terms of the order of the perturbation over kB*T",
               "a perturbed search that fails makes the calculation fail"]
CASE_LIMIT = 800

CONDS = [dict(T=450.0, p=[1.0, 0.3, 2.5], tot={}), dict(T=650.0, p=[0.1, 4.0, 1.0], tot={"*_s": 0.7})]
EPS = dict(quick=[1e-5, 1e-8, None], thorough=[1e-5, 1e-8, -1e-6, 0.003, 0.05, None])
MECHS = dict((k, steady.CYCLIC[k]) for k in ("er", "coox", "iso", "twosite", "five", "order", "carbonate"))


def bounds(tier):
    return dict(mechanisms=sorted(MECHS), energies=sorted(steady.ENERGIES), conditions=CONDS, perturbations=EPS[tier], products="every gas",
                failing_searches="each perturbed search in turn")


def cases(tier):
    out = []
    for name in sorted(MECHS):
        for e in sorted(steady.ENERGIES):
            for i in range(len(CONDS)):
                for rf in ("MDNewton", "ConstrainedNewton"):
                    if rf == "ConstrainedNewton" and name not in ("er", "iso", "coox"):
                        continue
                    for part in ("values", "side effects", "failures"):
                        if part != "values" and tier == "quick" and (e not in ("moderate", "weak") or i):
                            continue
                        out.append(dict(mech=name, e=e, cond=i, rf=rf, part=part, tier=tier))
    return out


def solve(mech, T, e, p, totals, x):
    """(steady state, rates, Jacobian) of the reference, by Newton from x"""
    mp = mpmath.mpf
    kf, kr = steady.constants(T, e)
    tot = {s: mp(totals.get(s, 1.0)) for s in mech.site}
    x = [mp(v) for v in x]
    for it in range(60):
        act = mech.free(x, tot)
        act.update({g: mp(p[g]) for g in mech.gas + mech.liq})
        rf, rr = mech.rates(kf, kr, act)
        d = mech.dtheta(rf, rr)
        J = mpmath.matrix(c12.jac(mech, kf, kr, act))
        s = mpmath.lu_solve(J, mpmath.matrix(d))
        x = [a - b for a, b in zip(x, s)]
        if max(abs(v) for v in s) < mp(10) ** -60:
            break
    return x, rf, rr, J, act


def reference(mech, T, e, p, totals, x, g, eps):
    """(logarithmic derivatives, difference quotients) of the turnover of g"""
    mp = mpmath.mpf
    x, rf, rr, J, act = solve(mech, T, e, p, totals, x)
    net = [a - b for a, b in zip(rf, rr)]
    r0 = sum(mech.net(r, g) * v for r, v in zip(mech.rxns, net))
    n, k = len(x), len(net)
    kf, kr = steady.constants(T, e)
    drv, quo = [], []
    for i in range(k):
        # dtheta/dlnk_i
        b = mpmath.matrix([-mech.net(mech.rxns[i], a) * net[i] for a in mech.ads])
        dth = mpmath.lu_solve(J, b)
        tot = mech.net(mech.rxns[i], g) * net[i]
        for j, a in enumerate(mech.ads):
            for l, r in enumerate(mech.rxns):
                if mech.net(r, g):
                    df = c12.dprod(r.IS, kf[l], act, a, mech, False) - c12.dprod(r.FS, kr[l], act, a, mech, False)
                    tot += mech.net(r, g) * df * dth[j]
        drv.append(tot / r0)
        e2 = copy.deepcopy(e)
        e2["Gaf"][i] = mp(e["Gaf"][i]) + mp(eps)
        e2["Gar"][i] = mp(e["Gar"][i]) + mp(eps)
        _, f2, b2, _, _ = solve(mech, T, e2, p, totals, x)
        r1 = sum(mech.net(r, g) * (a - c) for r, a, c in zip(mech.rxns, f2, b2))
        kk = steady.constants(T, e2)[0][i]
        quo.append((r1 - r0) / r0 / ((kk - kf[i]) / kf[i]))
    return drv, quo, r0


def prepare(c, opt=None, own=None):
    mech = ref.Mech(MECHS[c["mech"]])
    k = len(mech.rxns)
    cd = CONDS[c["cond"]]
    p = {g: cd["p"][i % 3] for i, g in enumerate(mech.gas)}
    m = build.mkm(mech, energies=steady.energies(own or c["e"], k), T=cd["T"], p=p, totals=cd["tot"], tolerance=1e-25, decimal_precision=60,
                  rootfinding=c["rf"], **(opt or {}))
    m.hybrid_method = None
    return mech, m, cd["T"], p, cd["tot"]


def search(m, rec, **kw):
    n = len(m.adsorbate_names)
    for x in [[0.3 / n] * n, [1e-3] * n] + [[0.9 if i == j else 0.01 for i in range(n)] for j in range(n)]:
        try:
            th = m.solver.get_steady_state_cvgs(tuple(x), **kw)
        except Exception:
            th = None
        if th is not None:
            return th
    rec.count("no steady state found")
    return None


def run_case(c, rec):
    getattr(__import__("mc.checks.c16", fromlist=["x"]), c["part"].replace(" ", "_"))(c, rec)


def values(c, rec):
    for way in ("own", "passed"):
        mech, m, T, p, tot = prepare(c, own=c["e"] if way == "own" else "strong" if c["e"] != "strong" else "weak")
        e = steady.rel(c["e"], len(mech.rxns))
        kw = {} if way == "own" else dict(relative_energies=e)
        if search(m, rec, **kw) is None:
            continue
        th = [mpmath.mpf(x) for x in m.solver.coverages]
        for g in mech.gas:
            for eps in EPS[c["tier"]]:
                with mpmath.workdps(80):
                    de = eps if eps is not None else m.perturbation_size
                    drv, quo, r0 = reference(mech, T, e, p, tot, th, g, de)
                what = lambda: "%r, energies %s (%s), %g K, pressures %r, %s, degrees for %s with perturbation %r" % (mech.texts(), c["e"], way, T, p, c["rf"], g, eps)
                if abs(r0) < 1e-15:
                    rec.count("no turnover")
                    continue
                x = m.solver.get_single_XRC(g, **(dict(kw, epsilon=eps) if eps is not None else kw))
                rec.step()
                with mpmath.workdps(80):
                    x = [mpmath.mpf(v) for v in x]
                    rec.check(len(x) == len(mech.rxns), "length", lambda: "%s: %d degrees" % (what(), len(x)))
                    small = abs(de) / (ref.KB_EV * T)
                    noise = mpmath.mpf("1e-24") * 200 / abs(r0) / small + mpmath.mpf("1e-15") / abs(de)
                    size = max(1, max(abs(v) for v in quo))
                    txt = lambda: "%s: %s, expected %s (derivatives %s)" % (what(), [mpmath.nstr(v, 12) for v in x], [mpmath.nstr(v, 12) for v in quo], [mpmath.nstr(v, 12) for v in drv])
                    for a, b, d in zip(x, quo, drv):
                        rec.check(abs(a - b) <= (noise + mpmath.mpf("1e-9")) * size, "difference quotient", txt)
                        if small < 1e-3:
                            rec.check(abs(a - d) <= 50 * small * size ** 2 + noise * size, "derivative", txt)
                    if small < 1e-3:
                        rec.check(abs(sum(x) - 1) <= (200 * small * size ** 2 + noise * size) * len(x), "sum", lambda: txt() + ", sum %s" % mpmath.nstr(sum(x), 12))
                rec.trace()
                rec.state((c["mech"], c["e"], c["cond"], c["rf"], way, g, eps))
                rec.outcome([mpmath.nstr(v, 5) for v in x])
                rec.sample(dict(mechanism=mech.texts(), gas=g, degrees=[mpmath.nstr(v, 8) for v in x], perturbation=eps))


def picture(m, e):
    """Everything a user can see that a rate control calculation must leave alone."""
    s = m.solver
    return dict(energies=canon(dict(m.relative_energies)), passed=canon(e), coverages=canon(list(s.coverages)), error=canon(s.error),
                archive=open("data.pkl", "rb").read() if os.path.exists("data.pkl") else None, found=m.has_relative_energy if hasattr(m, "has_relative_energy") else None,
                temperature=m.temperature, residual=canon(s.get_residual(tuple(s.coverages), relative_energies=e)), k=canon(list(s.get_rate_constants(relative_energies=e))))


def side_effects(c, rec):
    """what is there before and after, with and without archiving, alone and within a run"""
    for way in ("own", "passed"):
        for arch in (["steady_state_coverages"], ["rates", "tofs", "steady_state_coverages", "steady_state_error", "initial_guess"]):
            mech, m, T, p, tot = prepare(c, dict(archived_variables=arch), own=c["e"] if way == "own" else "strong" if c["e"] != "strong" else "weak")
            e = steady.rel(c["e"], len(mech.rxns)) if way == "passed" else None
            kw = dict(relative_energies=e) if e else {}
            if search(m, rec, **kw) is None:
                continue
            s = m.solver
            s.get_tof(cvgs=s.coverages, **kw)
            before = picture(m, e)
            for g in mech.gas:
                for eps in (1e-5, 0.05, None):
                    for again in (0, 1):
                        x = s.get_single_XRC(g, **(dict(kw, epsilon=eps) if eps is not None else kw))
                        rec.step()
                        now = picture(m, e)
                        rec.check(now == before, "side effect", lambda: "%r, energies %s (%s), %s, archived %r: the degrees for %s with perturbation %r changed %s" % (
                            mech.texts(), c["e"], way, c["rf"], arch, g, eps, [k for k in now if now[k] != before[k]]))
                        rec.state((c["mech"], c["e"], c["rf"], way, len(arch), g, eps, again))
                        rec.trace()
                        if again:
                            rec.check(canon(x) == first, "repeated", lambda: "%r: asked again, the degrees are %s, before %s" % (mech.texts(), x, first))
                        first = canon(x)
            rec.outcome(sorted(before))
    # the whole run
    for fs in (False, True):
        for xrc in (False, True):
            mech, m, T, p, tot = prepare(c, dict(archived_variables=["rates", "tofs", "steady_state_coverages"]))
            th = search(m, rec)
            if th is None:
                return
            if os.path.exists("data.pkl"):
                os.remove("data.pkl")
            mech, m, T, p, tot = prepare(c, dict(archived_variables=["rates", "tofs", "steady_state_coverages"]))
            m.run(init_cvgs=[float(x) for x in th], fsolve=fs, coarse_guess=False, XRC=xrc, product_name=mech.gas[0])
            rec.step()
            now = [canon(list(m.steady_state_coverages)), canon(list(m.TOFs)), canon(m.error), canon(list(m.solver.coverages)), open("data.pkl", "rb").read()]
            rec.check(not xrc or now == last, "side effect", lambda: "%r, energies %s, fsolve %s: a run with rate control ends with other results than one without" % (mech.texts(), c["e"], fs))
            last = now
            rec.trace()


class Stop(Exception):
    pass


def failures(c, rec):
    """every search of the calculation fails in turn, by an exception or by finding nothing"""
    mech, m, T, p, tot = prepare(c, dict(archived_variables=["rates", "steady_state_coverages", "steady_state_error"]))
    if search(m, rec) is None:
        return
    s = m.solver
    s.get_tof(cvgs=s.coverages)
    real = s.get_steady_state_cvgs
    want = canon(s.get_single_XRC(mech.gas[0], epsilon=1e-5))
    before = picture(m, None)
    for i in range(len(mech.rxns)):
        for how in ("raises", "finds nothing", "fails late"):
            count = [0]

            def broken(*a, **kw):
                count[0] += 1
                if count[0] == i + 1:
                    if how == "finds nothing":
                        return None
                    if how == "fails late":
                        real(*a, **kw)
                    raise Stop()
                return real(*a, **kw)
            s.get_steady_state_cvgs = broken
            try:
                x = s.get_single_XRC(mech.gas[0], epsilon=1e-5)
                failed = False
            except Exception as err:
                failed = True
            s.get_steady_state_cvgs = real
            rec.step()
            if count[0] == 0:
                raise core.InfraError("rate control does not search through get_steady_state_cvgs")
            rec.check(failed, "unnoticed", lambda: "%r: search %d %s, yet degrees are returned: %s" % (mech.texts(), i + 1, how, x))
            now = picture(m, None)
            rec.check(now == before, "side effect", lambda: "%r: search %d %s, and the calculation changed %s" % (mech.texts(), i + 1, how, [k for k in now if now[k] != before[k]]))
            again = canon(s.get_single_XRC(mech.gas[0], epsilon=1e-5))
            rec.check(again == want and picture(m, None) == before, "side effect", lambda: "%r: search %d %s, and later degrees differ" % (mech.texts(), i + 1, how))
            rec.state((c["mech"], c["e"], c["rf"], i, how))
            rec.outcome(how)
            rec.trace()
    rec.sample(dict(mechanism=mech.texts(), failing_searches=len(mech.rxns)))
