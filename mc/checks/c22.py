"""C22: what a run starts from, ends with and archives, over histories of runs."""
import inspect
import itertools
import os
import pickle
import mpmath
from .. import ref, build, steady, core, kin
from .c18 import canon

PROPERTY = "C22"
TECHNIQUE = ("explicit-state exploration of histories of real runs in one directory: the state is the content of the directory, every "
             "set-up of a run is executed from every state reached; starts are observed at the solver's interface, results judged by the "
             "mass-action reference")
RULE = "a state is (data file, what was archived in it by which run); a transition one complete run"
ASSUMPTIONS = ["archived coverages fit a model with the same number of adsorbates",
               "a run with fsolve claims low precision only, not that its root is physical, and archives the rates, not a converged state",
               "a run that finds no steady state raises and archives no coverages"]
CASE_LIMIT = 880

ALL = ["rates", "net_rates", "reversibilities", "tofs", "steady_state_coverages", "steady_state_error", "initial_guess"]
ARCH = {"default": None, "all": ALL, "no coverages": ["rates", "tofs"], "coverages and guess": ["initial_guess", "steady_state_coverages"], "none": []}
MODELS = {
    "er": dict(mech="er", e="moderate"),
    "er-strong": dict(mech="er", e="strong", T=500.0),
    "ads": dict(mech="ads", e="moderate"),
    "diss": dict(mech="diss", e="weak"),
    "coox": dict(mech="coox", e="moderate"),
    "iso": dict(mech="iso", e="strong", rf="ConstrainedNewton"),
    "big": dict(mech="er", e="moderate", totals={"*_s": 2.5}),
    # a gas that is not there: a step without forward rate
    "absent": dict(mech="er", e="moderate", p={"CO2_g": 0.0, "CO_g": 0.0}),
}
INITS = {"er": ["good", "poor"], "er-strong": ["good"], "ads": ["good", "poor"], "diss": ["good"], "coox": ["good", "poor"], "iso": ["good"], "big": ["good", "full"], "absent": ["good"]}
PASSED = ["moderate", "weak", "strong"]
MODES = ["precise", "coarse", "fsolve"]


def first_options(tier):
    out = []
    for m in MODELS:
        for mode in MODES:
            for init in ["none", "hybrid"] + INITS[m]:
                if mode == "fsolve" and init == "poor":
                    continue
                for a in sorted(ARCH):
                    for x in (False, True):
                        if x and (m not in ("er", "coox") or mode != "precise" or init == "none"):
                            continue
                        out.append(dict(model=m, mode=mode, init=init, arch=a, xrc=x))
        for a in ("default", "all"):
            out.append(dict(model=m, mode="fail", init="poor", arch=a, xrc=False))
        # runs with energies of their own
        for e in PASSED:
            if e == MODELS[m]["e"]:
                continue
            for mode in MODES:
                for x in (False, True):
                    if not x or (m in ("er", "coox") and mode == "precise"):
                        out.append(dict(model=m, mode=mode, init="good", arch="all", xrc=x, passed=e))
    return out


def next_options(tier):
    """Set-ups whose outcome can depend on the directory, and one of every other kind."""
    out = []
    for m in MODELS if tier == "thorough" else ("er", "ads", "er-strong", "coox", "big", "absent"):
        for mode in MODES:
            for a in ("default", "all", "no coverages") if tier == "thorough" else ("all",) if mode == "coarse" else ("default", "all"):
                out.append(dict(model=m, mode=mode, init="hybrid", arch=a, xrc=False))
        out.append(dict(model=m, mode="precise", init="good", arch="no coverages", xrc=False))
    for m in ("er", "ads"):
        out.append(dict(model=m, mode="coarse", init="none", arch="all", xrc=False))
        out.append(dict(model=m, mode="fail", init="poor", arch="all", xrc=False))
        out.append(dict(model=m, mode="precise", init="hybrid", arch="all", xrc=False, passed="weak"))
    out.append(dict(model="er", mode="precise", init="hybrid", arch="all", xrc=True))
    return out


def bounds(tier):
    return dict(models=MODELS, first_runs=len(first_options(tier)), later_runs=len(next_options(tier)), archived=ARCH, energies_passed=[None] + PASSED, modes=MODES + ["fail"],
                length_of_histories=3 if tier == "quick" else 4)


def cases(tier):
    f = first_options(tier)
    # the outcome of a first run leads to few different directories: one case explores what follows a group of first runs
    groups = {}
    for o in f:
        groups.setdefault((o["model"], o["arch"]), []).append(o)
    return [dict(first=g, tier=tier) for k, g in sorted(groups.items())]


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.solvers.steady_state_solver, scipy.integrate, scipy.optimize, mpmath, sympy


def guesses(name):
    d = MODELS[name]
    n = len(ref.Mech(steady.MECHS[d["mech"]]).ads)
    return dict(good=[0.3 / n] * n, poor=[0.0] * (n - 1) + [1.0], full=[2.4 / n] * n)


OWN = [0.21, 0.13, 0.08]


def one_run(rec, history, o, before):
    """Execute a run in the current directory; before: content of the data file (None: absent)."""
    d = MODELS[o["model"]]
    mech = ref.Mech(steady.MECHS[d["mech"]])
    T, k, n = d.get("T", 450.0), len(mech.rxns), len(mech.ads)
    fail = o["mode"] == "fail"
    totals, p = d.get("totals", {}), d.get("p", {})
    opt = dict(totals=totals, p=p, rootfinding=d.get("rf", "MDNewton"))
    if ARCH[o["arch"]] is not None:
        opt["archived_variables"] = list(ARCH[o["arch"]])
    m = build.mkm(mech, energies=steady.energies(d["e"], k), T=T, tolerance=1e-8, max_rootfinding_iterations=1 if fail else 100, **opt)
    s = m.solver
    own, starts, odes, converged = [], [], [], []
    if o["init"] == "hybrid":
        def guess(model, N):
            own.append([x / (N + 1) for x in OWN[:n]])
            return list(own[-1])
        m.hybrid_method_register(guess)
    elif fail:
        m.hybrid_method = None
    for name in ("coarse_steady_state_cvgs", "fsolve_steady_state_cvgs", "get_steady_state_cvgs"):
        spy(s, name, starts)
    real_ode = s.solve_ode

    def ode(*a, **kw):
        r = real_ode(*a, **kw)
        odes.append(r[-1])
        return r
    s.solve_ode = ode
    kw = dict(fsolve=o["mode"] == "fsolve", coarse_guess=o["mode"] == "coarse")
    given = None
    if o["init"] in ("good", "poor", "full"):
        given = guesses(o["model"])[o["init"]]
        kw["init_cvgs"] = list(given)
    passed = steady.rel(o["passed"], k) if o.get("passed") else None
    if passed:
        kw["relative_energies"] = passed
    if o["xrc"]:
        kw.update(XRC=True, product_name="CO2_g")
    what = lambda: "%s, then %r" % (history, o)
    error = None
    try:
        m.run(**kw)
    except Exception as e:
        error = "%s: %s" % (type(e).__name__, e)
    rec.step()
    rec.check(fail or error is None, "run failed", lambda: "%s: %s" % (what(), error))

    # what it started from
    rec.check(len(starts) > 0, "start", lambda: "%s: no search was made" % what())
    c0 = None if starts[0][1] is None else [canon(mpmath.mpf(x)) for x in starts[0][1]]
    old = before.get("steady_state_coverages") if before else None
    same = lambda xs: c0 == [canon(mpmath.mpf(float(x)) if not isinstance(x, mpmath.mpf) else x) for x in xs]
    show = lambda: None if starts[0][1] is None else [float(x) for x in starts[0][1]]
    if given is not None:
        rec.check(same(given), "start", lambda: "%s: started from %s, given %s" % (what(), show(), given))
        kind = "given"
    elif old is not None and len(old) == n:
        rec.check(same(old), "start", lambda: "%s: started from %s, archived %s" % (what(), show(), [float(x) for x in old]))
        kind = "archived"
    else:
        cand = own[:1] + odes[:1]
        if c0 is None:          # the search asks the model itself
            rec.check(len(cand) > 0, "start", lambda: "%s: started from nothing" % what())
        else:
            rec.check(any(same(x) for x in cand), "start", lambda: "%s: started from %s, the model's own guesses are %s" % (what(), show(), cand))
        kind = "own guess"
    rec.count("started from: " + kind)

    # what it ended with
    after = load(rec, what)
    if error is not None:
        rec.count("failed runs")
        new = after.get("steady_state_coverages") if after else None
        rec.check(new is None or (old is not None and canon(new) == canon(old)), "unconverged", lambda: "%s: failed with %s, but archived coverages %s" % (what(), error, new))
        return after, kind, "failed"
    th = m.steady_state_coverages
    e = steady.rel(o.get("passed") or d["e"], k)
    rec.check(passed is None or passed == e, "energies passed", lambda: "%s: the run changed the energies passed to it: %r" % (what(), passed))
    th = [mpmath.mpf(x) if isinstance(x, mpmath.mpf) else mpmath.mpf(float(x)) for x in th]
    with mpmath.workdps(80):
        kf, kr = steady.constants(T, e)
        act = mech.free(th, {x: mpmath.mpf(totals.get(x, 1.0)) for x in mech.site})
        act.update({g: mpmath.mpf(p.get(g, 1.0)) for g in mech.gas + mech.liq})
        rf, rr = mech.rates(kf, kr, act)
        scale = max(abs(x) for x in rf + rr)
        want = dict(rates=[rf, rr], net_rates=[a - b for a, b in zip(rf, rr)], reversibilities=[b / a if a != 0 else None for a, b in zip(rf, rr)], tofs=mech.tof(rf, rr)[:len(mech.gas)],
                    steady_state_coverages=th)
        if o["mode"] == "fsolve":
            rec.check(all(abs(x) <= 1e-6 * scale for x in mech.dtheta(rf, rr)), "not stationary",
                      lambda: "%s: ended with %s" % (what(), [float(x) for x in th]))
        else:
            steady.judge(rec, what(), mech, T, e, p, totals, list(m.steady_state_coverages), 1e-8, m.error)

        _, _, uf, ur = kin.rates(mech, kf, kr, act)
        tiny = mpmath.mpf(10) ** -300
        tol = dict(rates=[uf, ur], net_rates=[a + b for a, b in zip(uf, ur)],
                   reversibilities=[(a / abs(x) + b / (abs(y) + tiny)) * abs(y / x) if x != 0 else None for a, b, x, y in zip(uf, ur, rf, rr)],
                   tofs=[sum(abs(mech.net(r, g)) * (a + b) for r, a, b in zip(mech.rxns, uf, ur)) for g in mech.gas], steady_state_coverages=[mpmath.mpf("1e-15")] * n)

        def like(got, name):
            if name == "rates":
                return len(got) == 2 and all(len(x) == k and all(abs(mpmath.mpf(a) - b) <= u for a, b, u in zip(x, y, z)) for x, y, z in zip(got, want[name], tol[name]))
            if name == "reversibilities":       # without a forward rate there is none
                return len(got) == k and all(abs(mpmath.mpf(a) - b) <= u if u is not None else not mpmath.isfinite(a) for a, b, u in zip(got, want[name], tol[name]))
            return len(got) == len(want[name]) and all(abs(mpmath.mpf(a) - b) <= u for a, b, u in zip(got, want[name], tol[name]))
        rec.check(like(list(m.TOFs), "tofs"), "results", lambda: "%s: turnover frequencies %s, expected %s" % (what(), m.TOFs, fl(want["tofs"])))
        rec.check(like(list(m.reversibilities), "reversibilities"), "results", lambda: "%s: reversibilities %s, expected %s" % (what(), m.reversibilities, [x if x is None else float(x) for x in want["reversibilities"]]))

        restarted = len(own) + len(odes) > (1 if kind == "own guess" else 0)
        if o["mode"] == "precise" and not o["xrc"] and not restarted:
            s0 = [mpmath.mpf(x) for x in (starts[0][1] if starts[0][1] is not None else (own + odes)[0])]
            if min(list(s0) + list(mech.free(s0, {x: totals.get(x, 1.0) for x in mech.site}).values())) >= 0:
                g = list(s.good_guess)
                rec.check(len(g) == n and all(abs(mpmath.mpf(a) - b) < 1e-12 for a, b in zip(g, s0)), "results", lambda: "%s: the good initial coverages are %s, started from %s" % (what(), fl(g), fl(s0)))

        # what it archived
        asked = ARCH[o["arch"]] if ARCH[o["arch"]] is not None else ["steady_state_coverages"]
        exp = [x for x in asked if o["mode"] != "fsolve" or x not in ("steady_state_coverages", "steady_state_error", "initial_guess")]
        if not exp:
            rec.check(canon(after) == canon(before), "archived", lambda: "%s: nothing to archive, but the data file changed" % what())
            return after, kind, "ended"
        rec.check(after is not None and sorted(after) == sorted(exp), "archived", lambda: "%s: archived %s, requested %s" % (what(), sorted(after or {}), sorted(exp)))
        for name in exp:
            if name in want:
                rec.check(like(list(after[name]), name), "archived", lambda: "%s: archived %s %s, expected %s" % (what(), name, mpmath.nstr(after[name], 20), mpmath.nstr(want[name], 20)))
        if "steady_state_coverages" in exp:
            rec.check(canon(list(after["steady_state_coverages"])) == canon(list(m.steady_state_coverages)), "archived", lambda: "%s: archived coverages differ from the model's" % what())
        if "steady_state_error" in exp:
            rec.check(canon(after["steady_state_error"]) == canon(m.error), "archived", lambda: "%s: archived error %s, the model's %s" % (what(), after["steady_state_error"], m.error))
        if "initial_guess" in exp and not restarted and o["mode"] == "precise":
            g = after["initial_guess"]
            s0 = [mpmath.mpf(x) for x in (starts[0][1] if starts[0][1] is not None else (own + odes)[0])]
            physical = min(list(s0) + list(mech.free(s0, {x: totals.get(x, 1.0) for x in mech.site}).values())) >= 0
            rec.check(not physical or len(g) == n and all(abs(mpmath.mpf(a) - b) < 1e-12 for a, b in zip(g, s0)), "archived", lambda: "%s: archived initial guess %s, started from %s" % (what(), fl(g), fl(s0)))
    return after, kind, "ended"


def fl(xs):
    return [float(x) for x in xs]


def spy(s, name, starts):
    real = getattr(s, name)
    sig = inspect.signature(real)

    def call(*a, **kw):
        bound = sig.bind(*a, **kw)
        c0 = bound.arguments.get("c0")
        starts.append((name, None if c0 is None else [x for x in c0]))
        return real(*a, **kw)
    setattr(s, name, call)


def load(rec, what):
    if not os.path.exists("data.pkl"):
        return None
    try:
        return pickle.load(open("data.pkl", "rb"))
    except Exception as e:
        rec.fail("unreadable", "%s: the data file does not load: %s" % (what(), e))


def put(content):
    for f in os.listdir("."):
        if os.path.isfile(f):
            os.remove(f)
    if content is not None:
        with open("data.pkl", "wb") as f:
            f.write(content)


def get():
    return open("data.pkl", "rb").read() if os.path.exists("data.pkl") else None


def run_case(c, rec):
    frontier = {None: (None, "empty directory")}
    depth = 3 if c["tier"] == "quick" else 4
    for level in range(depth):
        new = {}
        for content, (key, history) in frontier.items():
            before = pickle.loads(content) if content is not None else None
            for o in c["first"] if level == 0 else next_options(c["tier"]):
                put(content)
                after, kind, end = one_run(rec, history, o, before)
                rec.trace()
                now = get()
                # what later runs can depend on: the kind of content, not the digits of the rates in it
                k = None if after is None else (tuple(sorted(after)), tuple(fl(after.get("steady_state_coverages", ()))) and
                                                tuple("%.6e" % x for x in fl(after["steady_state_coverages"])), type(after.get("steady_state_coverages", None)).__name__)
                rec.state((k, o["model"], o["mode"], o["init"], o["arch"]))
                rec.outcome((k, kind, end))
                if k is not None and all(k != v[0] for v in new.values()):
                    new[now] = (k, "%s, then %s/%s/%s/%s" % (history, o["model"], o["mode"], o["init"], o["arch"]))
        rec.count("directories after %d runs" % (level + 1), len(new))
        frontier = new
    rec.sample(dict(first=c["first"][0], directories=len(frontier)))
