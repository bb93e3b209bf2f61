"""C29: the event analysis table."""
import itertools
import re
from .. import kmc

PROPERTY = "C29"
TECHNIQUE = ("bounded exhaustive exploration: all histories of (available sites of every event, picked event) up to a length x buffer sizes x start steps, played into the real analysis; "
             "the tables of the file it leaves are read back and compared with the history")
RULE = "a state is (history, parameters); a trace one history played to the end"
ASSUMPTIONS = ["picked events are numbered as the counted (not fast) events", "records are of consecutive steps", "numbers are judged to the digits written"]
D = lambda r, b, a, **k: dict(dict(reaction=kmc.RXNS[r], coordinates_group=[[[0.0, 0.0, 0.0]]], elements_before=[b], elements_after=[a], basis_sites=[0]), **k)
SETS = {"two": [D(0, "V", "C")], "four": [D(0, "V", "C"), D(0, "C", "V", basis_sites=[1])], "fast": [D(0, "V", "C"), D(3, "C", "V", fast=True)], "mixed": [D(2, "C", "V"), D(0, "V", "C")]}
COUNT = {"two": 2, "four": 4, "fast": 2, "mixed": 4}
MANY = [D(0, "V", "C", basis_sites=[0, 1]), D(2, "C", "V", basis_sites=[0, 1, 2]), D(1, "V", "O_s"), D(3, "C", "V", fast=True), D(3, "C", "O_s")]     # 14 events
RATES = [1.5, 2.0e-7, 3.25e12, 0.0]
AVAIL = {2: [(0, 0), (1, 0), (0, 2), (3, 1)], 4: [(0, 0, 0, 0), (1, 0, 2, 0), (0, 4, 1, 3), (1, 1, 1, 1)]}


def bounds(tier):
    return dict(definitions=sorted(SETS), records=sizes(tier), available_sites={str(k): v for k, v in AVAIL.items()}, rates=RATES, buffers=[1, 2, 3, "default"], first_steps=[0, 7], long="histories of 3, 30 and 1100 records over 14 events", parallel="another process at every point")


def sizes(tier):
    return {2: 4, 4: 3} if tier == "quick" else {2: 5, 4: 4}


def cases(tier):
    out = []
    for s in sorted(SETS):
        n = COUNT[s]
        alphabet = [(a, p) for a in AVAIL[n] for p in range(n)]
        out.append(dict(s=s, first=[], tier=tier))
        out += [dict(s=s, first=[x], tier=tier) for x in alphabet]
    out += [dict(s="many", long=n, shift=k) for n in (3, 30) for k in range(14)] + [dict(s="many", long=1100, shift=k) for k in (0, 3)]
    return out + [dict(s=s, par=1) for s in sorted(SETS)]


def worker_init(*a):
    import scaks.models.kmc_model  # noqa


def records(hist, n, s0):
    rates = (RATES * n)[:n]
    recs = [(s0, 0.0, None, None)]
    for i, (a, p) in enumerate(hist):
        recs.append((s0 + i + 1, 0.5 * (i + 1), None, kmc.Interactions(p, list(a), rates)))
    return recs


def run_case(c, rec):
    from KMCLib import KMCLatticeModel
    from scaks.solvers.kmc_plugins import EventAnalysis
    if c.get("long"):
        return long_(c, rec, EventAnalysis)
    m = kmc.model(SETS[c["s"]], analysis=["EventAnalysis"])
    m.run(scripting=False)
    KMCLatticeModel.runs.pop()
    n = COUNT[c["s"]]
    alphabet = [(a, p) for a in AVAIL[n] for p in range(n)]
    if c.get("par"):
        recs = records([alphabet[0], alphabet[-1], alphabet[3], alphabet[-2], alphabet[-3]], n, 0)
        for size in (1, 2, 3, 50):
            kmc.parallel(lambda: EventAnalysis(m, filename="par.txt", buffer_size=size), recs, rec, lambda: open("par.txt").read(), lambda: "event analysis, buffer %d" % size)
            rec.state((c["s"], size, "parallel"))
            rec.trace()
        return
    first = [(tuple(a), p) for a, p in c["first"]]
    k = 0
    for length in ([0] if not first else range(sizes(c["tier"])[n])):
        for tail in itertools.product(alphabet, repeat=length):
            hist = first + list(tail)
            k += 1
            recs = records(hist, n, 7 if k % 5 == 0 else 0)
            texts = []
            for size in ((1, 2, 3, None) if length < 3 or k % 7 == 0 else (1 + k % 3,)):
                kw = {} if size is None else dict(buffer_size=size)
                kmc.play(EventAnalysis(m, filename="ev.txt", **kw), recs)
                text = open("ev.txt", encoding="utf-8").read()
                if text not in texts:
                    texts.append(text)
                    verify(text, m, recs, rec, c, size)
                rec.trace()
                rec.step(len(recs) + 1)
                rec.check(len(texts) == 1, "buffer", lambda: "events %r: the file depends on the buffer size" % (hist,))
            if k % 50 == 1:
                KMCLatticeModel.history = staticmethod(lambda a: kmc.play(a, recs))
                m.run(scripting=False)
                KMCLatticeModel.history = None
                KMCLatticeModel.runs.pop()
                verify(open("auto_events.txt", encoding="utf-8").read(), m, recs, rec, c, "default, in a run")
    rec.sample(dict(events=c["s"], history=hist))


def long_(c, rec, cls):
    from KMCLib import KMCLatticeModel
    m = kmc.model(MANY, analysis=["EventAnalysis"])
    m.run(scripting=False)
    KMCLatticeModel.runs.pop()
    rec.check(len(m.solver.process_mapping) == 14, "names", lambda: "%r" % (m.solver.process_mapping,))
    hist = [(tuple((j * i + i + c["shift"]) % 13 if (i + j) % 3 else 0 for j in range(14)), (i * 5 + i // 7 + c["shift"]) % 14) for i in range(c["long"])]
    recs = records(hist, 14, 0)
    for size in (1, 2, 7, None) if c["long"] < 100 else (7, None):
        kw = {} if size is None else dict(buffer_size=size)
        kmc.play(cls(m, filename="ev.txt", **kw), recs)
        verify(open("ev.txt", encoding="utf-8").read(), m, recs, rec, c, size)
        rec.trace()
        rec.step(len(recs) + 1)
    rec.sample(dict(events="many", records=len(recs)))


def rows(block):
    """The rows of a table drawn with bars."""
    out = []
    for line in block:
        if line.startswith("|"):
            out.append([x.strip() for x in line.strip().strip("|").split("|")])
    return out[1:], (out[0] if out else None)


def close(shown, value):
    try:
        v = float(shown)
    except ValueError:
        return False
    return abs(v - value) <= 0.00500001 * 10 ** _exp(value) if value else v == 0.0


def _exp(v):
    return int(("%.2e" % v).split("e")[1])


def verify(text, m, recs, rec, c, size):
    names = list(m.solver.process_mapping)
    n = len(names)
    hist = [(s, i.a, i.p) for s, _, _, i in recs[1:]]
    what = lambda: "events %r, records (step, available, picked) %r, rates %r, buffer %r:\n%s" % (names, hist, (RATES * n)[:n], size, text)
    rec.state((c["s"], tuple((s, tuple(a), p) for s, a, p in hist)))
    parts = re.split(r"^(?=Step: )", text, flags=re.M)
    head, tables = parts[0], parts[1:]
    listing, _ = rows(head.split("\n"))
    rec.check(listing == [[str(i), r] for i, r in enumerate(names)], "listing", lambda: "%s\nlisted %r" % (what(), listing))
    rec.check(len(tables) == max(0, len(hist) - 1), "number of tables", lambda: "%s\n%d tables, expected %d" % (what(), len(tables), max(0, len(hist) - 1)))
    for t, (s, avail, _), (s2, _, picked) in zip(tables, hist, hist[1:]):
        head = re.match(r"Step: (\S+)\nTotal available sites number: (\S+)\n", t)
        rec.check(head is not None and head.group(1) == str(s), "step", lambda: "%s\n%r, expected step %d" % (what(), t, s))
        note = re.search(r"points to the process picked in step (\S+)\)", t)
        rec.check(note is not None and note.group(1) == str(s2), "note", lambda: "%s\n%r, expected step %d" % (what(), t, s2))
        body, _ = rows(t.split("\n"))
        rates = [a * r for a, r in zip(avail, RATES * n)]
        tot = sum(rates)
        rec.check(len(body) == n, "rows", lambda: "%s\n%r" % (what(), body))
        total = float(head.group(2))
        rec.check(abs(total - sum(avail)) < 1e-9, "total available sites", lambda: "%s\n%s, expected %s" % (what(), head.group(2), sum(avail)))
        for i, row in enumerate(body):
            arrow = row[0].startswith("->")
            rec.check(arrow == (i == picked), "arrow", lambda: "%s\nrow %d of step %d, picked %d" % (what(), i, s, picked))
            label = row[0][2:].strip() if arrow else row[0]
            rec.check(label == "(%d) %s" % (i, names[i]), "event", lambda: "%s\n%r, expected event %d %s" % (what(), row, i, names[i]))
            rec.check(row[1] == str(avail[i]), "available sites", lambda: "%s\n%r, expected %s" % (what(), row, avail[i]))
            rec.check(close(row[2], rates[i]), "rate", lambda: "%s\n%r, expected %r" % (what(), row, rates[i]))
            p = 100 * rates[i] / tot if tot else 0.0
            rec.check(row[3].endswith("%") and abs(float(row[3][:-1]) - p) <= 0.00501, "probability", lambda: "%s\n%r, expected %r" % (what(), row, p))
            rec.outcome((row[1], row[2], row[3], arrow))
