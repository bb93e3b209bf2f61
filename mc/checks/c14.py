"""C14: what the steady-state search returns."""
import itertools
import mpmath
from .. import ref, build, steady, kin

PROPERTY = "C14"
TECHNIQUE = ("bounded exhaustive exploration of the real search: mechanisms x root finders x energies (the model's and passed "
             "ones) x a grid of starts inside and outside the physical region x single-point mode x every sequence of "
             "restart guesses from a menu; every returned state is judged by the mass-action reference")
RULE = "a state is (mechanism, root finder, energies, start, mode, guess sequence); a transition one restart guess or one return"
ASSUMPTIONS = ["a search that returns no coverages, or raises, has reported failure",
               "site totals may be exceeded by no more than the tolerance (by 1e-14 for double-precision starts)",
               "the search is get_steady_state_cvgs; the low-precision fsolve shortcut does not claim a tolerance"]
CASE_LIMIT = 600


def bounds(tier):
    return dict(mechanisms=len(steady.MECHS), energies=len(steady.ENERGIES), root_finders=2, guesses=sorted(MENU),
                guess_sequences=2 if tier == "quick" else 3, tolerance=[1e-8, 1e-20])


VALS = [-0.4, 0.0, 0.3, 1.0, 1.6]
MENU = ["mid", "zero", "over", "neg", "good", "badroot"]


def starts(n, tier):
    v = VALS if n == 1 else [-0.4, 0.0, 0.45, 1.3] if n == 2 and tier == "thorough" else [0.0, 0.45, 1.3] if n == 2 else None
    if v:
        return [list(x) for x in itertools.product(v, repeat=n)]
    return [[0.0] * n, [0.2] * n, [1.5] + [0.0] * (n - 1), [0.0] * (n - 1) + [-0.3]]


def cases(tier):
    out = []
    for name in sorted(steady.MECHS):
        n = len(ref.Mech(steady.MECHS[name]).ads)
        for e in sorted(steady.ENERGIES):
            for rf in ("MDNewton", "ConstrainedNewton"):
                if rf == "ConstrainedNewton" and n > 2:
                    continue
                for tol in (1e-8, 1e-20):
                    if tier == "quick" and tol == 1e-20 and e not in ("moderate",):
                        continue
                    out.append(dict(part="starts", mech=name, e=e, rf=rf, tol=tol, tier=tier))
    for name in ("er", "coox", "diss", "ads", "hop0", "spect"):
        depth = 2 if tier == "quick" else 3
        for rf in ("MDNewton", "ConstrainedNewton"):
            for first in MENU:
                out.append(dict(part="guesses", mech=name, e="moderate", rf=rf, tol=1e-8, first=first, depth=depth))
    for name in ("er", "coox", "ads"):
        out.append(dict(part="passed", mech=name, tol=1e-8))
    return out


def search(m, start, guesses, rec, **kw):
    """Run the search with a finite supply of restart guesses."""
    left = list(guesses)

    def hybrid(model, N):
        rec.step()
        g = left.pop(0)
        if not left:
            model.hybrid_method = None
        return tuple(g)
    m.hybrid_method = hybrid if left else None
    try:
        r = m.solver.get_steady_state_cvgs(start, **kw)
    except Exception as e:
        rec.count("search raised " + type(e).__name__)
        r = None
    rec.step()
    return r, len(left)


def menu(mech, T, e):
    n = len(mech.ads)
    good = newton(mech, T, e, [0.3 / n] * n)
    bad = None
    for s in itertools.product([-2.0, -0.5, 0.1, 1.2, 3.0], repeat=n):
        x = newton(mech, T, e, list(s))
        if x and (min(x) < -1e-6 or min(steady.evaluate(mech, T, e, {}, {}, x)[2].values()) < -1e-6):
            bad = x
            break
    d = {"mid": [0.37 / n] * n, "zero": [0.0] * n, "over": [1.4] * n, "neg": [-0.2] * n}
    d["good"] = good or [0.11] * n
    d["badroot"] = bad or [2.0] * n
    return d


def newton(mech, T, e, x):
    """a root of the reference model, physical or not"""
    with mpmath.workdps(40):
        try:
            g = lambda *v: steady.evaluate(mech, T, e, {}, {}, v)[0]
            r = mpmath.findroot(g, x, tol=1e-20, maxsteps=60)
            return [mpmath.mpf(v) for v in (r if hasattr(r, "__iter__") else [r])]
        except Exception:
            return None


def run_case(c, rec):
    mech = ref.Mech(steady.MECHS[c["mech"]])
    n, k, T = len(mech.ads), len(mech.rxns), 450.0
    if c["part"] == "passed":
        return passed(c, rec, mech, n, k, T)
    e = steady.rel(c["e"], k)
    m = build.mkm(mech, energies=steady.energies(c["e"], k), rootfinding=c["rf"], tolerance=c["tol"], T=T, max_rootfinding_iterations=60)
    if c["part"] == "starts":
        for start in starts(n, c["tier"]):
            for single in (False, True):
                r, _ = search(m, tuple(start), [[0.29 / n] * n], rec, single_pt=single)
                verdict(c, rec, mech, T, e, m, r, (start, single))
        rec.sample(dict(mechanism=mech.texts(), energies=c["e"], root_finder=c["rf"], start=start))
        return
    g = menu(mech, T, e)
    firsts = [c["first"]]
    for d in range(1, c["depth"] + 1):
        for rest in itertools.product(MENU, repeat=d - 1):
            seq = firsts + list(rest)
            for start in ([0.0] * n, g["badroot"], [1.3] * n):
                r, left = search(m, tuple(start), [g[x] for x in seq], rec)
                verdict(c, rec, mech, T, e, m, r, (seq, [str(x) for x in start]))
                rec.check(r is not None or left == 0, "gave up early", lambda: "%r start %r guesses %r: failure with %d guesses left" % (mech.texts(), start, seq, left))
    # no supply at all
    for start in ([0.0] * n, g["good"], g["badroot"], [1.3] * n):
        r, _ = search(m, tuple(start), [], rec)
        verdict(c, rec, mech, T, e, m, r, ("none", [str(x) for x in start]))
    # the search asks for the first guess itself
    r, _ = search(m, None, [g[c["first"]], g["mid"]], rec)
    verdict(c, rec, mech, T, e, m, r, ("own start", c["first"]))
    rec.sample(dict(mechanism=mech.texts(), guesses=seq, roots={x: [mpmath.nstr(mpmath.mpf(v), 8) for v in g[x]] for x in g}))


def passed(c, rec, mech, n, k, T):
    """energies of the model and energies passed in, from each other's steady state"""
    names = sorted(steady.ENERGIES)
    roots = {}
    for own in names:
        for rf in ("MDNewton", "ConstrainedNewton"):
            m = build.mkm(mech, energies=steady.energies(own, k), rootfinding=rf, tolerance=c["tol"], T=T, max_rootfinding_iterations=60)
            for other in names + [None, "near"]:
                e = steady.rel(own if other in (None, "near") else other, k)
                if other == "near":
                    # so near that the own steady state is within the tolerance
                    e["Gaf"] = [x + (i + 1) * 1e-15 for i, x in enumerate(e["Gaf"])]
                    e["Gar"] = [x - i * 1e-15 for i, x in enumerate(e["Gar"])]
                if (other or own) not in roots:
                    roots[other or own] = newton(mech, T, e, [0.3 / n] * n) or [0.2] * n
                for s in sorted(roots):
                    for single in (False, True):
                        kw = dict(single_pt=single)
                        if other:
                            kw["relative_energies"] = e
                        r, _ = search(m, tuple(roots[s]), [[0.21 / n] * n], rec, **kw)
                        verdict(dict(c, e=other or own, rf=rf), rec, mech, T, e, m, r, (own, other, s, single))
    rec.sample(dict(mechanism=mech.texts(), own=own, passed=other))


def verdict(c, rec, mech, T, e, m, r, what):
    rec.state((c["mech"], c["e"], c["rf"], c["tol"], repr(what)))
    rec.trace()
    if r is None:
        rec.count("reported failure")
        rec.outcome("failure")
        return
    rec.count("returned a state")
    what = "%r %s energies %s tolerance %s, %r" % (mech.texts(), c["rf"], c["e"], c["tol"], what)
    steady.judge(rec, what, mech, T, e, {}, {}, r, c["tol"], m.solver.error)
    rec.check(tuple(m.solver.coverages) == tuple(r), "coverages", what + ": solver.coverages differ from the returned ones")
    rec.outcome(tuple(mpmath.nstr(mpmath.mpf(x), 8) for x in r))
