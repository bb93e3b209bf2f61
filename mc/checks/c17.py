"""C17: time integration and its trajectory file."""
import itertools
import math
from .. import ref, build

PROPERTY = "C17"
TECHNIQUE = ("bounded exhaustive exploration: all combinations of mechanism, energies, start, interval of time, step, output interval, integrator and kind of call, on the real integration "
             "against an independent integration (matrix exponentials or Runge-Kutta on mass action) and the executed trajectory file; and a failure of every single evaluation of the derivatives")
RULE = "a state is one integration with its parameters; a transition one integration step"
ASSUMPTIONS = ["states are compared to within 3e-4 (the integrators' own tolerance is 1e-6 per step)", "times are compared to rounding", "errors raised inside an integrator other than lsoda (the default) are lost by the installed scipy, so failing evaluations are judged with lsoda"]

# name -> (steps, Ga, dG, other Ga, starts, totals)
MECHS = {
    "mono": (["CO_g + *_s -> CO_s"], [[0.0]], [[-0.2]], [(0.0,), (0.7,), (1.0,)], {}),
    "slow": (["CO_g + *_s <-> CO-_s -> CO_s"], [[1.05], [1.1]], [[-0.03], [0.05]], [(0.0,), (0.4,), (1.0,)], {}),
    "diss": (["O2_g + 2*_s <-> O-O_2s -> 2O_s"], [[1.06], [1.12]], [[-0.05], [0.0]], [(0.0,), (0.35,), (0.9,)], {}),
    "two": (["CO_g + *_s <-> CO-_s -> CO_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s"], [[1.06, 1.1], [1.1, 1.05]], [[-0.03, -0.02], [0.01, 0.04]], [(0.0, 0.0), (0.2, 0.5), (0.0, 0.99)], {}),
    "cycle": (["CO_g + *_s <-> CO-_s -> CO_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"], [[1.06, 1.1, 1.08]], [[-0.03, -0.02, -0.1]], [(0.0, 0.0), (0.2, 0.5), (0.6, 0.4)], {}),
    "sites": (["CO_g + *_s <-> CO-_s -> CO_s", "CO_s + *_t <-> CO-_t + *_s -> CO_t + *_s"], [[1.05, 1.1]], [[-0.03, 0.02]], [(0.0, 0.0), (0.3, 0.2), (0.0, 0.4)], {"*_s": 0.6, "*_t": 0.4}),
}
SPANS = [(0.0, 0.05, 0.01), (0.0, 0.05, 0.02), (0.0, 0.004, 0.01), (0.02, 0.05, 0.01), (-0.03, 0.0, 0.01), (0.0, 0.02, 0.0005), (0.05, 0.05, 0.01), (0.05, 0.0, 0.01)]
INTERVALS = [1, 2, 3, 5, 200]
ALGOS = ["lsoda", "vode", "zvode", "dopri5", "dop853"]
T = 450.0
STEP = 5e-5


def bounds(tier):
    return dict(mechanisms={k: v[0] for k, v in MECHS.items()}, start_end_step=SPANS, output_intervals=INTERVALS, integrators=ALGOS, failing_evaluation="every one of the first %d" % fails(tier), pressures="1, 0.5")


def fails(tier):
    return 60 if tier == "quick" else 200


def cases(tier):
    out = []
    for k in sorted(MECHS):
        for algo in ALGOS:
            for e in range(len(MECHS[k][1])):
                for s in range(len(MECHS[k][3])):
                    out.append(dict(m=k, algo=algo, e=e, s=s, tier=tier))
    out += [dict(m=k, algo=a, fail=1, interval=i, tier=tier) for k in ("slow", "two") for a in ("lsoda",) for i in (1, 2, 3)]
    out += [dict(kind="blow", a=a) for a in ALGOS]
    out += [dict(kind="calls", m=k) for k in sorted(MECHS)]
    return out


def worker_init(*a):
    import scaks.models.micro_kinetic_model  # noqa


def consts(ga, dg):
    from scaks.database.thermo_data import kB_eV, h_eV
    k = lambda b: kB_eV * T / h_eV * math.exp(-b / (kB_eV * T))
    kf, kr = [], []
    for a, d in zip(ga, dg):
        kf.append(k(a))
        kr.append(k(a - d))
    return kf, kr


def reference(mech, ga, dg, p, totals, y0, span, cache={}):
    """Independent integration of mass action: an exponential where the equations are linear, otherwise Runge-Kutta with small steps."""
    if span <= 0:
        return list(y0)
    key = (tuple(mech.texts()), tuple(ga), tuple(dg), tuple(sorted(p.items())), tuple(y0))
    if key not in cache:
        kf, kr = consts(ga, dg)

        def f(y):
            act = dict(p)
            act.update(mech.free(y, totals))
            return mech.dtheta(*mech.rates(kf, kr, act))
        if len(mech.ads) == 1 and all(t.n == 1 for r in mech.rxns for st in r.states for t in st):
            b = f([0.0])[0]
            a = f([1.0])[0] - b
            cache[key] = (a, -b / a)
        else:
            cache[key] = (f, [list(y0)])
    f, ys = cache[key]
    if not callable(f):
        return [ys + (y0[0] - ys) * math.exp(f * span)]
    i = int(round(span / STEP))
    assert abs(span - i * STEP) < 1e-7, span
    while len(ys) <= i:
        h, y = STEP, ys[-1]
        k1 = f(y)
        k2 = f([a + h / 2 * b for a, b in zip(y, k1)])
        k3 = f([a + h / 2 * b for a, b in zip(y, k2)])
        k4 = f([a + h * b for a, b in zip(y, k3)])
        ys.append([a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(y, k1, k2, k3, k4)])
    return ys[i]


def make(name, e, interval, swap=False, energies=True):
    texts, gas, dgs, _, tot = MECHS[name]
    mech = ref.Mech(texts)
    p = {g: 1.0 if i % 2 == 0 else 0.5 for i, g in enumerate(mech.gas)}
    totals = {s: tot.get(s, 1.0) for s in mech.site}
    m = build.mkm(mech, energies=(gas[e], dgs[e]), T=T, p=p, totals=totals, ode_output_interval=interval, decimal_precision=20)
    ga = [max(0.0, d) if len(r.states) == 2 and a == 0.0 else a for r, a, d in zip(mech.rxns, gas[e], dgs[e])]
    return mech, m, p, totals, ga, dgs[e]


def trajectory(rec, what):
    env = {}
    text = open("auto_ode_coverages.py").read()
    try:
        exec(text, env)
    except BaseException as e:
        rec.fail("trajectory does not execute", "%s: %r\n%s" % (what(), e, text[:2000]))
    ts, ys = env.get("times"), env.get("coverages")
    rec.check(isinstance(ts, list) and isinstance(ys, list) and len(ts) == len(ys), "lengths", lambda: "%s: %r times, %r coverages" % (what(), ts, ys))
    rec.check(all(b > a for a, b in zip(ts, ts[1:])), "increasing", lambda: "%s: times %r" % (what(), ts))
    return ts, ys


def real(y):
    return [complex(v).real for v in y]


def near(a, b, tol=3e-4):
    return len(a) == len(b) and all(abs(complex(x) - y) < tol for x, y in zip(a, b))


def run_case(c, rec):
    if c.get("fail"):
        return failing(c, rec)
    if c.get("kind"):
        return {"blow": blow, "calls": calls}[c["kind"]](c, rec)
    for k, (t0, t1, dt) in enumerate(SPANS):
        for interval in INTERVALS:
            integrate(c, t0, t1, dt, interval, rec)


def integrate(c, t0, t1, dt, interval, rec):
    name, algo = c["m"], c["algo"]
    if name == "mono" and algo != "lsoda":
        return                                              # stiff
    mech, m, p, totals, ga, dg = make(name, c["e"], interval)
    y0 = MECHS[name][3][c["s"]]
    what = lambda: "%s, energies %r %r, from %r at %r to %r by %r with %s, output every %d" % (MECHS[name][0], ga, dg, y0, t0, t1, dt, algo, interval)
    import os
    if os.path.exists("auto_ode_coverages.py"):
        os.remove("auto_ode_coverages.py")
    t, y = m.solver.solve_ode(algo=algo, time_start=t0, time_end=t1, time_span=dt, initial_cvgs=y0, traj_output=True)
    rec.state((name, c["e"], c["s"], algo, t0, t1, dt, interval))
    rec.trace()
    steps = [t0]
    while steps[-1] < t1:
        steps.append(steps[-1] + dt)
    rec.step(len(steps))
    eps = 1e-9
    rec.check(t >= t1 - (0 if t1 > t0 else t1 - t0 if t1 < t0 else 0) - 0.0 if t1 >= t0 else abs(t - t0) < eps, "end", lambda: "%s: ends at %r" % (what(), t))
    rec.check(abs(t - steps[-1]) < dt * 1.001 + eps, "end", lambda: "%s: ends at %r, expected %r" % (what(), t, steps[-1]))
    want = reference(mech, ga, dg, p, totals, y0, t - t0)
    rec.check(near(y, want), "state", lambda: "%s: at %r %r, expected %r" % (what(), t, y, want))
    ts, ys = trajectory(rec, what)
    n = round((t - t0) / dt)
    due = [t0 + (i + 1) * dt for i in range(n) if (i + 1) % interval == 0]
    rec.check(len(ts) == len(due) and all(abs(a - b) < eps for a, b in zip(ts, due)), "steps due", lambda: "%s: times %r, expected %r" % (what(), ts, due))
    for a, b in list(zip(ts, ys))[:: max(1, len(ts) // 6)]:
        w = reference(mech, ga, dg, p, totals, y0, a - t0)
        rec.check(near(b, w), "trajectory", lambda: "%s: at %r %r, expected %r" % (what(), a, b, w))
    if ts and n % interval == 0:
        rec.check(near(ys[-1], real(y), 1e-12) and ts[-1] == t, "last entry", lambda: "%s: returned %r %r, recorded %r %r" % (what(), t, y, ts[-1], ys[-1]))
    rec.outcome((len(ts), n))
    # the same integration without a file
    os.remove("auto_ode_coverages.py")
    t2, y2 = m.solver.solve_ode(algo=algo, time_start=t0, time_end=t1, time_span=dt, initial_cvgs=y0)
    rec.check(t2 == t and list(y2) == list(y), "without trajectory", lambda: "%s: %r %r with, %r %r without" % (what(), t, y, t2, y2))
    rec.check(not os.path.exists("auto_ode_coverages.py"), "without trajectory", lambda: "%s: a file is written" % what())


class Stop(Exception):
    pass


def failing(c, rec):
    """The k-th evaluation of the derivatives fails, for every k: the error reaches the caller and the file holds the steps done."""
    mech, m, p, totals, ga, dg = make(c["m"], 0, c["interval"])
    y0 = MECHS[c["m"]][3][1]
    s = m.solver
    orig = s.steady_state_function
    args = dict(algo=c["algo"], time_start=0.0, time_end=0.05, time_span=0.002, initial_cvgs=y0, traj_output=True)
    s.solve_ode(**args)
    full = trajectory(rec, lambda: "undisturbed")
    for k in range(1, fails(c["tier"]) + 1):
        n = [0]

        def broken(*a, **kw):
            n[0] += 1
            if n[0] == k:
                raise Stop("evaluation %d" % k)
            return orig(*a, **kw)
        s.steady_state_function = broken
        err = None
        try:
            s.solve_ode(**args)
        except Stop as e:
            err = e
        except Exception as e:
            err = e
        finally:
            s.steady_state_function = orig
        what = lambda: "%s with %s, output every %d, evaluation %d fails" % (MECHS[c["m"]][0], c["algo"], c["interval"], k)
        if n[0] < k:
            rec.check(err is None, "error", lambda: "%s: %r" % (what(), err))
            break
        rec.state((c["m"], c["algo"], c["interval"], k))
        rec.step()
        rec.trace()
        rec.check(err is not None, "error", lambda: "%s: the integration returns" % what())
        ts, ys = trajectory(rec, what)
        rec.check(ts == full[0][:len(ts)] and ys == full[1][:len(ts)], "interrupted trajectory", lambda: "%s: %r, undisturbed %r" % (what(), ts, full[0]))
        rec.outcome(len(ts))


def blow(c, rec):
    """From unphysical coverages the equations have no solution up to the end: an error, or a state at a time not before the end."""
    texts = ["O2_g + 2*_s <-> O-O_2s -> 2O_s"]
    mech = ref.Mech(texts)
    for y0 in ((3.0,), (-2.0,), (1.5,)):
        for e in ([0.9], [1.05]):
            m = build.mkm(mech, energies=(e, [-0.3]), T=T, p={"O2_g": 1.0}, decimal_precision=20, ode_output_interval=1)
            rec.state((c["a"], y0, e[0]))
            rec.trace()
            what = lambda: "%s from %r, barrier %r, with %s" % (texts, y0, e, c["a"])
            try:
                t, y = m.solver.solve_ode(algo=c["a"], time_end=0.1, time_span=0.01, initial_cvgs=y0, traj_output=True)
            except Exception as x:
                rec.outcome(type(x).__name__)
            else:
                rec.outcome("returned")
                rec.check(t >= 0.1 - 1e-9, "end", lambda: "%s: returned at %r" % (what(), t))
            trajectory(rec, what)


def calls(c, rec):
    """Explicit energies against the model's; defaults; repeated and interleaved calls."""
    name = c["m"]
    texts, gas, dgs, starts, tot = MECHS[name]
    mech, m, p, totals, ga, dg = make(name, 0, 1)
    other = {"Gaf": [a + 0.04 for a in ga], "dG": [d - 0.01 for d in dg], "Gar": [a + 0.05 - d for a, d in zip(ga, dg)]}
    oga, odg = other["Gaf"], [a - b for a, b in zip(other["Gaf"], other["Gar"])]
    base = dict(time_end=0.02, time_span=0.005)
    kinds = [(kw, ex) for kw in (dict(initial_cvgs=starts[0]), dict(initial_cvgs=list(starts[1])), {}) for ex in (False, True)]
    alone = {}
    for i, (kw, ex) in enumerate(kinds):
        mech, m, p, totals, ga, dg = make(name, 0, 1)
        kw = dict(kw, **base)
        if ex:
            kw["relative_energies"] = {k: list(v) for k, v in other.items()}
        t, y = m.solver.solve_ode(**kw)
        alone[i] = (t, list(y))
        y0 = kw.get("initial_cvgs")
        if y0 is None:
            y0 = [0.0] * len(mech.ads)          # no absolute energies
        w = reference(mech, oga if ex else ga, odg if ex else dg, p, totals, y0, t)
        rec.check(near(y, w), "state", lambda: "%s, call %r: %r, expected %r" % (texts, kw, y, w))
        rec.state((name, i))
    for seq in itertools.product(range(len(kinds)), repeat=2):
        _, m, p, totals, ga, dg = make(name, 0, 1)
        for i in seq:
            kw, ex = dict(kinds[i][0], **base), kinds[i][1]
            if ex:
                kw["relative_energies"] = {k: list(v) for k, v in other.items()}
            t, y = m.solver.solve_ode(**kw)
            rec.step()
            rec.check((t, list(y)) == alone[i], "repeated", lambda: "%s, calls %r: %r, alone %r" % (texts, seq, (t, y), alone[i]))
        rec.state((name, seq))
        rec.trace()
