"""C07: relative-energy input."""
import itertools
from .. import ref, build, mechs, kin

PROPERTY = "C07"
TECHNIQUE = ("bounded exhaustive exploration of all value assignments, length mismatches, load paths and load "
             "sequences on the real parser, against the stated rule")
RULE = "a state is (model state before, data offered, load path); a transition one parse_data call"
ASSUMPTIONS = ["'no energies loaded' is observed through has_relative_energy / relative_energies"]

STEPS = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"]
GA = [0.0, 1e-12, 1e-9, 0.4, 1.7]
DG = [-1.3, -1e-12, 0.0, 1e-12, 0.25, 2.0]


def bounds(tier):
    return dict(Ga=GA, dG=DG, steps=3 if tier == "thorough" else 2, histories="all sequences of 2 loads over 7 data sets x 2 paths")


def cases(tier):
    pairs = list(itertools.product(GA, DG))
    out = [dict(part="one")]
    out += [dict(part="two", a=p) for p in pairs]
    if tier == "thorough":
        out += [dict(part="three", a=p) for p in pairs]
    else:
        out += [dict(part="three3", a=p) for p in pairs[::6]]
    out += [dict(part="len", n=n) for n in (1, 2, 3, 15)]
    out += [dict(part="large")]
    out += [dict(part="hist", depth=3 if tier == "thorough" else 2, first=i, path=q) for i in range(len(HIST)) for q in (0, 1)]
    return out


HIST = [dict(Ga=[0.5, 0.0], dG=[-0.2, 0.3]), dict(Ga=[0.1, 0.6], dG=[0.05, -0.4]),
        dict(Ga=[0.0, 0.0], dG=[-1.0, 1.0]), dict(Ga=[0.5], dG=[-0.2, 0.3]), dict(Ga=[0.5, 0.0], dG=[-0.2]),
        dict(Ga=[0.5, 0.1, 0.3], dG=[0.1, 0.2, 0.3]), dict(Ga=[0.5, 0.1]), dict(dG=[0.5, 0.1]), dict(Ga=[], dG=[])]


def want(ga, dg):
    gaf = [d if abs(g) < 1e-10 and d > 0 else g for g, d in zip(ga, dg)]
    return dict(Gaf=gaf, dG=list(dg), Gar=[g - d for g, d in zip(gaf, dg)])


def model(n):
    return build.mkm(ref.Mech(STEPS[:n] if n <= len(STEPS) else kin.BIG["long"]), solver=None, get_data=False)


def load(m, data, path):
    if path == 0:
        m.parser.parse_data(filename="absent.py", energy_data={k: list(v) for k, v in data.items()})
    else:
        with open("e.py", "w") as f:
            for k in data:
                f.write("%s = []\n" % k)
                for v in data[k]:
                    f.write("%s.append(%r)\n" % (k, v))
        m.parser.parse_data(filename="e.py")


def good(m, ga, dg, rec, ctx):
    e = m.relative_energies
    w = want(ga, dg)
    rec.check(m.has_relative_energy, "flag", ctx)
    rec.check(sorted(e) == sorted(w), "keys", "%s: %r" % (ctx, sorted(e)))
    for k in w:
        ok = len(e[k]) == len(w[k]) and all(abs(x - y) <= 1e-12 for x, y in zip(e[k], w[k]))
        if k != "Gar" and ok:      # handed over unchanged
            ok = all(x == y for x, y in zip(e[k], w[k]))
        rec.check(ok, k, "%s: %s is %r, expected %r" % (ctx, k, e[k], w[k]))
    for g, r, d in zip(e["Gaf"], e["Gar"], e["dG"]):
        if abs(g) < 1e-10 or g == d:
            rec.check(r >= -1e-9, "negative", "%s: reverse barrier %r" % (ctx, r))


def run_case(c, rec):
    if c["part"] in ("one", "two", "three", "three3"):
        pairs = list(itertools.product(GA, DG))
        if c["part"] == "one":
            todo = [(p,) for p in pairs]
        elif c["part"] == "two":
            todo = [(c["a"], p) for p in pairs]
        elif c["part"] == "three":
            todo = [(c["a"], p, q) for p in pairs for q in pairs[::3]]
        else:
            todo = [(c["a"], p, q) for p in pairs[::4] for q in pairs[1::5]]
        n = len(todo[0])
        ms = [model(n), model(n)]
        for t in todo:
            ga, dg = [x[0] for x in t], [x[1] for x in t]
            for path in (0, 1):
                if path and len(t) == 3:
                    continue
                rec.state((path, t))
                rec.step()
                load(ms[path], dict(Ga=ga, dG=dg), path)
                good(ms[path], ga, dg, rec, "Ga=%r dG=%r via %s" % (ga, dg, ["memory", "file"][path]))
                rec.trace()
                rec.outcome(tuple(x == y for x, y in zip(ms[path].relative_energies["Gaf"], ga)))
        rec.sample(dict(Ga=ga, dG=dg, read=ms[0].relative_energies))
    elif c["part"] == "large":
        pairs = list(itertools.product(GA, DG))
        ms = [model(15), model(15)]
        for s in range(len(pairs)):
            t = [pairs[(s + 7 * i) % len(pairs)] for i in range(15)]
            ga, dg = [x[0] for x in t], [x[1] for x in t]
            for path in (0, 1):
                rec.state((path, "large", s))
                rec.step()
                load(ms[path], dict(Ga=ga, dG=dg), path)
                good(ms[path], ga, dg, rec, "15 steps, Ga=%r dG=%r via %s" % (ga, dg, ["memory", "file"][path]))
                rec.trace()
    elif c["part"] == "len":
        n = c["n"]
        for la in range(max(0, n - 6), n + 3):
            for ld in range(max(0, n - 6), n + 3):
                for path in (0, 1):
                    m = model(n)
                    ga, dg = [0.5 + 0.1 * i for i in range(la)], [0.2 - 0.1 * i for i in range(ld)]
                    rec.state((n, la, ld, path))
                    rec.step()
                    ok = True
                    try:
                        load(m, dict(Ga=ga, dG=dg), path)
                    except Exception:
                        ok = False
                    rec.check(ok == (la == ld == n), "length", "%d steps, %d barriers, %d energies: accepted=%s" % (n, la, ld, ok))
                    if not ok:
                        rec.check(not m.has_relative_energy and not m.relative_energies, "partial",
                                  "%d steps, %d barriers, %d energies: refused but energies loaded" % (n, la, ld))
                    else:
                        good(m, ga, dg, rec, "lengths")
                    rec.trace()
        m = model(n)
        try:
            m.parser.parse_data(filename="absent.py")
            ok = True
        except Exception:
            ok = False
        rec.check(not ok and not m.has_relative_energy, "absent", "loading from nothing was accepted")
    else:
        # histories: the last accepted load is what the model has
        import copy
        for tail in itertools.product(range(len(HIST)), (0, 1), repeat=c["depth"] - 1):
            seq = [(c["first"], c["path"])] + [(tail[2 * i], tail[2 * i + 1]) for i in range(c["depth"] - 1)]
            rec.state(tuple(seq))
            m = model(2)
            cur = None
            for i, path in seq:
                d = HIST[i]
                ok = True
                rec.step()
                try:
                    load(m, d, path)
                except Exception:
                    ok = False
                fine = len(d.get("Ga", ())) == 2 and len(d.get("dG", ())) == 2
                rec.check(ok == fine, "hist-accept", "load %r accepted=%s" % (d, ok))
                if ok:
                    cur = d
                if cur is None:
                    rec.check(not m.has_relative_energy and not m.relative_energies, "hist-partial", repr(seq))
                else:
                    good(m, cur["Ga"], cur["dG"], rec, "history %r" % (seq,))
            rec.trace()
