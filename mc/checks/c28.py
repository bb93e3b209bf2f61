"""C28: event counts and turnover."""
import itertools
import math
from .. import kmc

PROPERTY = "C28"
TECHNIQUE = ("bounded exhaustive exploration: all histories of picked events and time increments up to a length x start steps x interval lengths x buffer sizes, played into "
             "the real analyses; the files they leave are executed and compared with counts of the history")
RULE = "a state is (history, parameters); a trace one history played to the end"
ASSUMPTIONS = ["picked events are numbered as the counted (not fast) events", "steady time runs from the first steady record to the last record; where none passes, no rate is judged",
               "an interval ends at the first record more than the configured length after its start; the first one starts with the run"]
D = lambda r, b, a, **k: dict(dict(reaction=kmc.RXNS[r], coordinates_group=[[[0.0, 0.0, 0.0]]], elements_before=[b], elements_after=[a], basis_sites=[0]), **k)
# two events of one step, the same step again (same names), a fast one, and a last one that only redistributes
SETS = {"two": [D(0, "V", "C")], "four": [D(0, "V", "C"), D(0, "C", "V", basis_sites=[1])], "fast": [D(0, "V", "C"), D(3, "C", "V", fast=True), D(1, "V", "O_s", redist=True, redist_species="C", fast=True)],
        "mixed": [D(2, "C", "V"), D(0, "V", "C")]}
# fourteen events, and a fast one before the last two
MANY = [D(0, "V", "C", basis_sites=[0, 1]), D(2, "C", "V", basis_sites=[0, 1, 2]), D(1, "V", "O_s"), D(3, "C", "V", fast=True), D(3, "C", "O_s")]
SETS_LONG = {"many": MANY, "four": SETS["four"]}
COUNT_LONG = {"many": 14, "four": 4}
SCALES = [1.0, 1e-9, 1e5]
LATTICES = [((2, 1, 1), 2), ((1, 3, 2), 2), ((2, 3, 4), 3), ((1, 1, 1), 1)]
DT = [0.5, 2.0, 0.0]


def bounds(tier):
    return dict(definitions=sorted(SETS), events="all histories of up to %s picks x time increments %r" % (sizes(tier), DT), start_steps=[0, 1, 2, 3, 99], intervals=[0.5, 1.0, 2.5], buffers=[1, 2, 3, "default"], start_times=[0.0, 3.5],
                long="histories of 3, 30, 61 and 1100 records over 4 and 14 events, times in units of %r, lattices %r" % (SCALES, LATTICES))


def sizes(tier):
    return {"two": 5, "four": 3, "fast": 5, "mixed": 3} if tier == "quick" else {"two": 6, "four": 4, "fast": 6, "mixed": 4}


def cases(tier):
    out = []
    for s in sorted(SETS):
        n = 2 if s in ("two", "fast") else 4
        out += [dict(s=s, n=n, first=[list(x) for x in f], tier=tier, t0=t0) for f in itertools.product(itertools.product(range(n), DT), repeat=2) for t0 in (0.0, 3.5)]
        out += [dict(s=s, n=n, first=[], tier=tier, t0=t0) for t0 in (0.0, 3.5)]
    out += [dict(s=s, long=n, scale=x, shift=k) for s in sorted(SETS_LONG) for n in (3, 30, 61) for x in range(len(SCALES)) for k in ((0, 5) if tier == "quick" else range(14))]
    out += [dict(s=s, long=1100, scale=x, shift=0) for s in sorted(SETS_LONG) for x in range(len(SCALES))]
    return out + [dict(s=s, par=1) for s in sorted(SETS)]


def records(hist, t0, first_step, stride):
    recs = [(first_step, t0, None, None)]
    t = t0
    for i, (p, dt) in enumerate(hist):
        t += dt
        recs.append((first_step + (i + 1) * stride, t, None, kmc.Interactions(p)))
    return recs


def run_case(c, rec):
    from KMCLib import KMCLatticeModel
    from scaks.solvers.kmc_plugins import FrequencyAnalysis, TOFAnalysis
    if c.get("par"):
        m = kmc.model(SETS[c["s"]], tof_interval=1.0)
        m.run(scripting=False)
        KMCLatticeModel.runs.pop()
        recs = records([(0, 0.5), (1, 1.0), (0, 0.0), (1, 2.0), (1, 3.0)], 0.0, 0, 1)
        kmc.parallel(lambda: FrequencyAnalysis(m, filename="par.py"), recs, rec, lambda: open("par.py").read(), lambda: "frequencies")
        for size in (1, 2, 3, 500):
            kmc.parallel(lambda: TOFAnalysis(m, filename="par.py", buffer_size=size), recs, rec, lambda: open("par.py").read(), lambda: "turnover, buffer %d" % size)
            rec.state((c["s"], size, "parallel"))
            rec.trace()
        return
    if c.get("long"):
        return long_(c, rec, FrequencyAnalysis, TOFAnalysis)
    models = {}
    for start in (0, 1, 2, 3, 99):
        for interval in (0.5, 1.0, 2.5):
            m = kmc.model(SETS[c["s"]], tof_start=start, tof_interval=interval, analysis=["FrequencyAnalysis", "TOFAnalysis"], start_time=c["t0"])
            m.run(scripting=False)
            KMCLatticeModel.runs.pop()
            models[start, interval] = m
    first = [tuple(x) for x in c["first"]]
    lengths = [0, 1] if not first else range(0, sizes(c["tier"])[c["s"]] - 1)
    k = 0
    for length in lengths:
        for tail in itertools.product(itertools.product(range(c["n"]), DT), repeat=length):
            hist = first + list(tail)
            k += 1
            for stride, s0 in ((1, 0),) if k % 3 else ((3, 0), (1, 7)):
                recs = records(hist, c["t0"], s0, stride)
                for start in (0, 1, 2, 3, 99):
                    freq(models[start, 1.0], FrequencyAnalysis, recs, start, c, rec)
                for interval in (0.5, 1.0, 2.5):
                    for size in (1, 2, 3, None):
                        tof(models[0, interval], TOFAnalysis, recs, interval, size, c, rec)
            if k % 40 == 1:
                m = models[1, 1.0]
                recs = records(hist, c["t0"], 0, 1)
                KMCLatticeModel.history = staticmethod(lambda a: kmc.play(a, recs))
                m.run(scripting=False)
                KMCLatticeModel.history = None
                KMCLatticeModel.runs.pop()
                check_freq("auto_frequency.py", m, recs, 1, c, rec, "default")
                check_tof("auto_tofs.py", m, recs, 1.0, c, rec, "default")
    rec.sample(dict(events=c["s"], history=hist))


def long_(c, rec, frequency, turnover):
    n, x = COUNT_LONG[c["s"]], SCALES[c["scale"]]
    hist = [((i * 5 + i // 7 + c["shift"]) % n if i % 3 else (c["shift"] + i // 3) % n, DT[i % 2] * x) for i in range(c["long"])]
    recs = records(hist, 3.5 * x, 0, 1)
    c = dict(c, lattice=(c["long"] + c["scale"] + c["shift"]) % 4)
    r, b = LATTICES[c["lattice"]]
    size = dict(repetitions=r, basis_sites=[[i / 7.0, 0.0, 0.0] for i in range(b)])
    for start in (0, 2, 17, 1099):
        m = kmc.model(SETS_LONG[c["s"]], tof_start=start, tof_interval=0.7 * x, analysis=["FrequencyAnalysis", "TOFAnalysis"], start_time=3.5 * x, **size)
        m.run(scripting=False)
        _pop()
        rec.check(len(m.solver.process_mapping) == n, "names", lambda: "%r" % (m.solver.process_mapping,))
        freq(m, frequency, recs, start, c, rec)
        if start == 0:
            for interval in (0.7, 0.1, 3.3, 1e9):
                mi = kmc.model(SETS_LONG[c["s"]], tof_start=0, tof_interval=interval * x, analysis=["TOFAnalysis"], start_time=3.5 * x, **size)
                mi.run(scripting=False)
                _pop()
                for buf in (1, 2, 7, None) if c["long"] < 100 else (7, None):
                    tof(mi, turnover, recs, interval * x, buf, c, rec)
    rec.sample(dict(events=c["s"], records=len(recs), unit=x))


def _pop():
    from KMCLib import KMCLatticeModel
    KMCLatticeModel.runs.pop()


def freq(m, cls, recs, start, c, rec):
    kmc.play(cls(m, filename="freq.py"), recs)
    check_freq("freq.py", m, recs, start, c, rec, "")


def nsites(c):
    r, b = LATTICES[c.get("lattice", 0)]
    return r[0] * r[1] * r[2] * b


def check_freq(name, m, recs, start, c, rec, note):
    names = list(m.solver.process_mapping)
    picks = [(s, t, i.pickedIndex()) for s, t, _, i in recs[1:]]
    what = lambda: "events %r, %s (step, time, event) %r, steady from step %d" % (names, note, picks, start)
    env = kmc.execute(name, rec, what)
    rec.step(len(recs) + 1)
    rec.trace()
    rec.state((c["s"], tuple(picks), start))
    occ = env["process_occurencies"]
    want = [sum(1 for p in picks if p[2] == i) for i in range(len(names))]
    rec.check(list(occ[:len(names)]) == want and not any(occ[len(names):]), "event counts", lambda: "%s: %r, expected %r" % (what(), occ, want))
    steady = [p for p in picks if p[0] >= start]
    for var, ps in (("reaction_occurencies", picks), ("steady_reaction_occurencies", steady)):
        w = {n: sum(1 for p in ps if names[p[2]] == n) for n in names}
        rec.check(env.get(var) == w, var, lambda: "%s: %s = %r, expected %r" % (what(), var, env.get(var), w))
        rec.outcome((var, tuple(sorted(w.items()))))
    dt = picks[-1][1] - steady[0][1] if steady else None
    rates = env.get("reaction_rates")
    rec.check(rates is not None and sorted(rates) == sorted(set(names)), "reaction_rates", lambda: "%s: %r" % (what(), rates))
    if steady and dt > 0:
        for n in rates:
            w = sum(1 for p in steady if names[p[2]] == n) / (dt * nsites(c))
            rec.check(abs(rates[n] - w) <= 1e-9 * w, "rate", lambda: "%s: rate of %s is %r, expected %r" % (what(), n, rates[n], w))
    elif not steady:
        rec.check(not any(rates.values()), "rate", lambda: "%s: no steady event, rates %r" % (what(), rates))


def tof(m, cls, recs, interval, size, c, rec):
    kw = {} if size is None else dict(buffer_size=size)
    kmc.play(cls(m, filename="tofs.py", **kw), recs)
    check_tof("tofs.py", m, recs, interval, c, rec, size)


def check_tof(name, m, recs, interval, c, rec, size):
    names = list(m.solver.process_mapping)
    picks = [(t, i.pickedIndex()) for _, t, _, i in recs[1:]]
    what = lambda: "run from %r, events %r, (time, event) %r, interval %r, buffer %r" % (recs[0][1], names, picks, interval, size)
    env = kmc.execute(name, rec, what)
    rec.step(len(recs) + 1)
    rec.trace()
    want, start, count = [], recs[0][1], [0] * len(names)
    for t, p in picks:
        count[p] += 1
        if t - start > interval:
            want.append((start, [x / (nsites(c) * (t - start)) for x in count]))
            start, count = t, [0] * len(names)
    rec.state((c["s"], tuple(picks), recs[0][1], interval))
    rec.check(env.get("processes") == names, "names", lambda: "%s: %r" % (what(), env.get("processes")))
    rec.check(env.get("times") == [t for t, _ in want], "interval starts", lambda: "%s: %r, expected %r" % (what(), env.get("times"), [t for t, _ in want]))
    got = env["tofs"]
    rec.check(len(got) == len(want), "entries", lambda: "%s: %r, expected %r" % (what(), got, want))
    for g, (_, w) in zip(got, want):
        rec.check(all(abs(a - b) <= 1e-12 + 1e-9 * b for a, b in zip(g, w)) and len(g) >= len(w) and not any(g[len(w):]), "turnover", lambda: "%s: %r, expected %r" % (what(), g, w))
