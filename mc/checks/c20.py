"""C20: the call protocol of on-the-fly analyses."""
import itertools
import mpmath
from .. import ref, build, steady, env

PROPERTY = "C20"
TECHNIQUE = ("bounded exhaustive exploration of the real search under every sequence of attempt outcomes (driven by the start, the "
             "restart guesses, the iteration limit and injected exceptions) x plugin sets x root finders; the recorded calls are "
             "run through the protocol automaton")
RULE = "a state is (mechanism, root finder, plugin set, iteration limit, start, guesses, fault); a transition one plugin call"
ASSUMPTIONS = ["an attempt that starts at a steady state performs no root finding and therefore makes no calls",
               "whether the iteration that ends an attempt is itself registered is left open",
               "the steps of an attempt are the same whatever plugins watch it"]
CASE_LIMIT = 300

# the second mechanism has a singular Jacobian everywhere, the third at zero coverage of its second species
MECHS = {"er": steady.MECHS["er"], "hop0": steady.MECHS["hop0"], "spect": steady.MECHS["spect"], "coox": steady.MECHS["coox"]}
PLUGINS = {"none": [], "one": [("a", 1)], "two": [("a", 1), ("b", 2)], "slow": [("a", 3)], "sub": [("sub", 1), ("b", 4)],
           "mixin": [("mixin", 2), ("a", 1)]}
GUESS = ["mid", "zero", "over", "good", "badroot"]


def bounds(tier):
    return dict(mechanisms=sorted(MECHS), plugin_sets=PLUGINS, guesses=GUESS, attempts=4 if tier == "quick" else 5,
                iteration_limits=[1, 2, 60], faults=["none", "step 1", "step 2", "hybrid 1", "hybrid 2"])


def cases(tier):
    out = []
    for mech in sorted(MECHS):
        for rf in ("MDNewton", "ConstrainedNewton"):
            for first in GUESS:
                for lim in (1, 2, 60):
                    out.append(dict(mech=mech, rf=rf, first=first, lim=lim, depth=3 if tier == "quick" else 4))
    out.append(dict(part="interval"))
    return out


def plugin(kind, interval, log, fault):
    from scaks.plugins.analysis import OnTheFlyAnalysis
    n = [0]

    def setup(self, model, outer_counter):
        log.append((kind, "setup", outer_counter))

    def register_step(self, model, inner_counter, outer_counter):
        log.append((kind, "step", inner_counter, outer_counter))
        n[0] += 1
        if fault == ("step", n[0]):
            raise RuntimeError("injected")

    def finalize(self, model, outer_counter):
        log.append((kind, "finalize", outer_counter))
    if kind == "sub":
        parent = type(OnTheFlyAnalysis)("Parent", (OnTheFlyAnalysis,), dict(setup=setup, register_step=register_step))
        return type(OnTheFlyAnalysis)("Sub", (parent,), dict(finalize=finalize, interval=interval))
    if kind == "mixin":
        m = type("Mixin", (object,), dict(register_step=register_step, finalize=finalize))
        return type(OnTheFlyAnalysis)("Mixed", (m, OnTheFlyAnalysis), dict(setup=setup, interval=interval))
    return type(OnTheFlyAnalysis)("Plain", (OnTheFlyAnalysis,), dict(setup=setup, register_step=register_step, finalize=finalize, interval=interval))


def one(c, rec, mech, g, start, seq, plugins, fault):
    """Run one search; returns the log of calls."""
    k = len(mech.rxns)
    log, left = [], list(seq)
    asked = []
    m = build.mkm(mech, energies=steady.energies("moderate", k), rootfinding=c["rf"], tolerance=1e-8, max_rootfinding_iterations=c["lim"])
    for i, (kind, interval) in enumerate(plugins):
        m.analysis_register(plugin(kind, interval, log, fault if i == 0 and fault and fault[0] == "step" else None))

    def hybrid(model, N):
        asked.append(N)
        log.append(("hybrid", N))
        if fault == ("hybrid", len(asked)):
            raise RuntimeError("injected")
        x = left.pop(0)
        if not left:
            model.hybrid_method = None
        return tuple(g[x])
    m.hybrid_method = hybrid if left else None
    end = None
    try:
        r = m.solver.get_steady_state_cvgs(tuple(start))
        end = "returned" if r is not None else "failed"
    except Exception as e:
        end = type(e).__name__ + ": " + str(e)
    env.close_handlers()
    if fault is not None and "injected" not in end:
        rec.count("fault not reached")
    rec.count("search " + end.split(":")[0])
    return log, end


def automaton(rec, what, log, plugins, lim):
    """What each plugin sees, as attempts: list of (number, [steps])."""
    views = {}
    for kind, interval in plugins:
        attempts, current, restarts = [], None, 0
        for call in log:
            if call[0] == "hybrid":
                restarts += 1
                continue
            if call[0] != kind:
                continue
            txt = lambda: "%s: %s sees %r" % (what, kind, [x for x in log if x[0] in (kind, "hybrid")])
            if call[1] == "setup":
                rec.check(current is None, "two set-ups", txt)
                rec.check(call[2] == restarts + 1, "attempt number", lambda: txt() + "; this is attempt %d" % (restarts + 1))
                current = (call[2], [])
            elif call[1] == "step":
                rec.check(current is not None, "step without set-up", txt)
                rec.check(call[3] == current[0], "attempt number", txt)
                rec.check(call[2] == interval * (len(current[1]) + 1), "step counter", txt)
                rec.check(call[2] <= lim + 1, "too many steps", txt)
                current[1].append(call[2])
            else:
                rec.check(current is not None, "finalized without set-up", txt)
                rec.check(call[2] == current[0], "attempt number", txt)
                attempts.append(current)
                current = None
        rec.check(current is None, "not finalized", lambda: "%s: %s left without finalisation: %r" % (what, kind, log))
        views[kind] = (interval, attempts)
        rec.step(sum(1 for x in log if x[0] == kind))
    return views


def run_case(c, rec):
    if c.get("part") == "interval":
        return interval(rec)
    from .c14 import menu
    mech = ref.Mech(MECHS[c["mech"]])
    n, k = len(mech.ads), len(mech.rxns)
    g = menu(mech, 450.0, steady.rel("moderate", k))
    for d in range(0, c["depth"]):
        for rest in itertools.product(GUESS, repeat=d):
            if c["lim"] == 60 and d > 1 and c["mech"] not in ("hop0", "spect"):
                continue
            names = [c["first"]] + list(rest)
            # two unused guesses at the end would hide a lost restart
            for fault in (None, ("step", 1), ("step", 2), ("hybrid", 1), ("hybrid", 2)):
                if fault and fault[1] > len(names):
                    continue
                reference = None
                for pname in ["one"] + [x for x in sorted(PLUGINS) if x != "one"]:
                    if fault and pname not in ("one", "two", "sub"):
                        continue
                    if d >= 2 and pname not in ("one", "two"):
                        continue
                    plugins = PLUGINS[pname]
                    log, end = one(c, rec, mech, g, g[names[0]], names[1:], plugins, fault)
                    what = "%r %s limit %d start and guesses %r plugins %r fault %r, %s" % (mech.texts(), c["rf"], c["lim"], names, plugins, fault, end)
                    views = automaton(rec, what, log, plugins, c["lim"])
                    asked = sum(1 for x in log if x[0] == "hybrid")
                    rec.check([x[1] for x in log if x[0] == "hybrid"] == list(range(1, asked + 1)), "restart number", lambda: "%s: %r" % (what, log))
                    if pname == "one":
                        reference = {o: len(s) for o, s in views["a"][1]}
                        # attempts that end with the iteration limit have seen every step
                        if c["lim"] < 3 and end == "failed":
                            rec.check(all(x in (c["lim"], c["lim"] + 1) or c["mech"] in ("hop0", "spect") for x in reference.values()), "steps missing", lambda: "%s: %r" % (what, log))
                    elif not fault:
                        for kind in views:
                            iv, at = views[kind]
                            got = {o: len(s) for o, s in at}
                            rec.check(got == {o: x // iv for o, x in reference.items()}, "attempts or steps missing",
                                      lambda: "%s: %s saw %r, but the attempts had %r steps" % (what, kind, got, reference))
                    # all plugins are treated alike, in order
                    seen = [(x[0], x[2]) for x in log if x[1:2] == ("setup",)]
                    rec.check(seen == [(kk, o) for o in sorted({o for _, o in seen}) for kk, _ in plugins], "set-up order", lambda: "%s: %r" % (what, log))
                    rec.state((c["mech"], c["rf"], c["lim"], pname, tuple(names), fault))
                    rec.outcome(tuple(x[1:] for x in log))
                    rec.trace()
    rec.sample(dict(mechanism=mech.texts(), root_finder=c["rf"], guesses=names, calls=[list(x) for x in log[:8]]))


def interval(rec):
    """only positive integers are intervals, and registration wants analyses"""
    from scaks.plugins.analysis import OnTheFlyAnalysis
    for v, good in [(1, True), (7, True), (0, False), (-1, False), (1.0, False), ("1", False), (True, False), (None, False)]:
        try:
            type(OnTheFlyAnalysis)("X", (OnTheFlyAnalysis,), dict(interval=v))
            ok = True
        except TypeError:
            ok = False
        rec.step()
        rec.check(ok == good, "interval", "interval %r accepted: %s" % (v, ok))
    m = build.mkm(ref.Mech(MECHS["er"]), energies=steady.energies("moderate", 2))
    for cls in (object, int, env.Comm):
        try:
            m.analysis_register(cls)
            rec.fail("registration", "%r registered as an analysis" % cls)
        except TypeError:
            pass
        rec.step()
    rec.check(list(m.analysis) == [], "registration", "analyses left: %r" % (m.analysis,))
    rec.sample("intervals")
