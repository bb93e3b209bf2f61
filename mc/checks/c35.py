"""C35: molecular masses."""
import itertools

PROPERTY = "C35"
TECHNIQUE = ("bounded exhaustive enumeration of every string up to a length over an alphabet of formula characters, and of every formula "
             "of a grammar up to a size with all tabulated elements, on the real code; compared with an independent recogniser")
RULE = "a state is a formula; a transition one evaluation"
ASSUMPTIONS = ["an empty formula, an empty bracket and a bare number weigh nothing or are refused"]
MASS = {"H": 1.00794, "C": 12.0107, "N": 14.0067, "O": 15.9994, "F": 18.9984032, "Ne": 20.1797, "S": 32.065, "Cl": 35.453}
AMU = 1.66053904e-27
ALPHA = "ClOeNX(2)0-"


def bounds(tier):
    return dict(strings="all over %r up to length %d" % (ALPHA, 5 if tier == "quick" else 6),
                formulas="all of up to 3 items; items are elements x counts '', 2, 3, 12 and bracketed formulas of up to 2 items, nested twice")


def cases(tier):
    n = 5 if tier == "quick" else 6
    out = [dict(k="s", n=n, pre=a + b) for a in ALPHA for b in ALPHA] + [dict(k="s", n=1, pre="")]
    return out + [dict(k="f", i=i) for i in range(len(ITEMS))] + [dict(k="n", i=i) for i in range(len(GROUPS))]


class Bad(Exception):
    pass


class Hollow(Exception):
    """well-formed, but contains nothing"""


def parse(s):
    """Independent recogniser: the list of symbols of a formula."""
    pos = [0]

    def digits():
        i = pos[0]
        while pos[0] < len(s) and s[pos[0]] in "0123456789":
            pos[0] += 1
        return s[i:pos[0]]

    def formula(closing):
        d = digits()
        out, hollow, seen = [], False, False
        while pos[0] < len(s):
            c = s[pos[0]]
            if c == ")" and closing:
                break
            seen = True
            if c == "(":
                pos[0] += 1
                part, h = formula(True)
                hollow = hollow or h
                if pos[0] >= len(s):
                    raise Bad("unclosed")
                pos[0] += 1
                n = digits()
            elif "A" <= c <= "Z":
                pos[0] += 1
                name = c
                if pos[0] < len(s) and "a" <= s[pos[0]] <= "z":
                    name += s[pos[0]]
                    pos[0] += 1
                part = [name]
                n = digits()
            else:
                raise Bad(c)
            out += part * (int(n) if n else 1)
        return out * (int(d) if d else 1), hollow or not seen
    out, hollow = formula(False)
    return out, hollow


COUNTS = ["", "2", "3", "12"]
ITEMS = [(e + n, e, int(n or 1)) for e in sorted(MASS) for n in COUNTS]
SMALL = [("H", {"H": 1}), ("Cl2", {"Cl": 2}), ("C", {"C": 1}), ("N12", {"N": 12}), ("Ne", {"Ne": 1})]


def add(*ds):
    out = {}
    for d, k in ds:
        for e, n in d.items():
            out[e] = out.get(e, 0) + n * k
    return out


def group(body, n):
    return "(%s)%s" % (body[0], n), add((body[1], int(n or 1)))


PAIRS = SMALL + [(a[0] + b[0], add((a[1], 1), (b[1], 1))) for a in SMALL for b in SMALL]
GROUPS = [group(b, n) for b in PAIRS for n in COUNTS]


def run_case(c, rec):
    from scaks.parsers.parser_base import ParserBase
    from scaks.functions import string2symbols
    mass = ParserBase.get_molecular_mass

    def good(text, want):
        w = sum(MASS[e] * n for e, n in want.items())
        for kw, f in (({}, 1.0), ({"absolute": True}, AMU)):
            got = mass(text, **kw)
            rec.step()
            rec.trace()
            rec.check(abs(got - w * f) <= 1e-11 * w * f, "mass", lambda: "%r weighs %r, expected %r" % (text, got, w * f))

    if c["k"] == "s":
        for n in range(0, c["n"] - len(c["pre"]) + 1):
            for tail in itertools.product(ALPHA, repeat=n):
                s = c["pre"] + "".join(tail)
                rec.state(s)
                rec.step()
                rec.trace()
                try:
                    want, hollow = parse(s)
                except Bad:
                    want, hollow = None, False
                if want is not None and hollow and not (set(want) - set(MASS)):
                    continue
                if want is not None and "X0" in s and not (set(want) - set(MASS)):
                    continue                  # no atoms of an unknown element
                ok = want is not None and not (set(want) - set(MASS))
                try:
                    got = mass(s)
                except Exception as e:
                    rec.check(not ok, "refused", lambda: "%r refused: %r" % (s, e))
                    rec.count("refused")
                    continue
                rec.check(want is not None, "malformed formula weighed", lambda: "%r weighs %r" % (s, got))
                rec.check(ok, "unknown element weighed", lambda: "%r weighs %r" % (s, got))
                w = sum(MASS[e] for e in want)
                rec.check(abs(got - w) <= 1e-11 * w, "mass", lambda: "%r weighs %r, expected %r" % (s, got, w))
                rec.check(sorted(string2symbols(s)) == sorted(want), "symbols", lambda: "%r: %r, expected %r" % (s, string2symbols(s), want))
                a = mass(s, absolute=True)
                rec.check(abs(a - w * AMU) <= 1e-11 * w * AMU, "absolute mass", lambda: "%r: %r, expected %r" % (s, a, w * AMU))
                rec.outcome(round(w, 6))
    elif c["k"] == "f":
        a = ITEMS[c["i"]]
        good(a[0], {a[1]: a[2]})
        for b in ITEMS:
            ab = add(({a[1]: a[2]}, 1), ({b[1]: b[2]}, 1))
            good(a[0] + b[0], ab)
            for d in ITEMS:
                rec.state(a[0] + b[0] + d[0])
                good(a[0] + b[0] + d[0], add((ab, 1), ({d[1]: d[2]}, 1)))
    else:
        g = GROUPS[c["i"]]
        good(*g)
        for x in SMALL + GROUPS[:40]:
            for n in COUNTS:
                rec.state((g[0], x[0], n))
                good(x[0] + g[0], add((x[1], 1), (g[1], 1)))
                good(g[0] + x[0], add((x[1], 1), (g[1], 1)))
                good(*group((x[0] + g[0], add((x[1], 1), (g[1], 1))), n))
                t, d = group((g[0] + x[0], add((x[1], 1), (g[1], 1))), n)
                good(t, d)
                t2, d2 = group(("H" + t, add((d, 1), ({"H": 1}, 1))), n)
                good("C" + t2 + "O2", add((d2, 1), ({"C": 1, "O": 2}, 1)))
    rec.sample(c)
