"""C32: generated Python text; durations."""
import itertools
import math

PROPERTY = "C32"
TECHNIQUE = ("bounded exhaustive enumeration of all lists up to a length over an alphabet of values x all column counts, all dictionaries "
             "over alphabets of keys and values, and all durations around every hour and minute boundary, executing the real text")
RULE = "a state is the data written; a transition one generated text, executed"
ASSUMPTIONS = ["numbers are finite", "dictionary keys are strings"]
VALUES = [0, -3, 1.5, 1e-300, 0.1, "a", "it's", 'say "x"', "back\\slash", "", "two\nlines", "CO_g + *_s -> CO_s(->)", (1, 2), [1, [2.5, "x"]], (), [], ("a'b",)]
MORE = [True, None, -0.0, 10 ** 30, "'", "''", "\t", "µ", ((), ((1,),))]
KEYS = ["a", "CO_g + *_s <-> CO-*_s -> CO_s(<-)", "it's", 'q"', "b\\", ""]
DVALS = [0, 2.5, -1e-12, "text", "it's", (1, "a"), [1, [2]], []]


def bounds(tier):
    return dict(lists="length 0..%d over %d values, columns 1..6" % (3 if tier == "quick" else 4, len(alphabet(tier))),
                long_lists="length 0..%d" % (40 if tier == "quick" else 120), dictionaries="up to 3 of %d keys x %d values" % (len(KEYS), len(DVALS)),
                durations="0..%d h in steps of 1, 60 and 3600 s, each with its floating-point neighbours" % (50 if tier == "quick" else 2000))


def alphabet(tier):
    return VALUES if tier == "quick" else VALUES + MORE


def cases(tier):
    out = [dict(k="l", first=i, tier=tier) for i in range(len(alphabet(tier)))]
    out += [dict(k="n", c=c, n=40 if tier == "quick" else 120) for c in range(1, 13)]
    out += [dict(k="d", i=i) for i in range(len(KEYS))]
    top = 50 if tier == "quick" else 2000
    return out + [dict(k="t", lo=h, hi=min(h + 10, top), tier=tier) for h in range(0, top, 10)]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    return a == b and (not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, b))


def execute(text, rec, what):
    env = {}
    try:
        exec(text, {"__builtins__": {}}, env)
    except BaseException as e:
        rec.fail("text does not execute", "%s: %r\n%s" % (what, e, text))
    return env


def run_case(c, rec):
    from scaks.utilities.format_utilities import get_list_string, get_dict_string, convert_time

    def lst(data, kw, name="data"):
        what = "list %r, %r" % (data, kw)
        env = execute(get_list_string(name, data, **kw), rec, what)
        rec.step()
        rec.trace()
        rec.check(list(env) == [name], "variables", lambda: "%s defines %r" % (what, sorted(env)))
        rec.check(same(env[name], list(data)), "list read back", lambda: "%s reads back as %r" % (what, env[name]))

    if c["k"] == "l":
        al = alphabet(c["tier"])
        top = 3 if c["tier"] == "quick" else 4
        first = al[c["first"]]
        if c["first"] == 0:
            for kw in [{}] + [dict(ncols=n) for n in range(1, 7)]:
                lst([], kw)
                lst((), kw)
        for n in range(0, top):
            for tail in itertools.product(al, repeat=n):
                data = [first] + list(tail)
                rec.state(repr(data))
                for kw in ([{}] + [dict(ncols=k) for k in range(1, 7)] if n < 3 else [{}, dict(ncols=1), dict(ncols=2), dict(ncols=3)]):
                    lst(data, kw, "times_%d" % n)
                if n < 2:
                    lst(tuple(data), {})
    elif c["k"] == "n":
        for n in range(c["n"] + 1):
            for make in (lambda i: i, lambda i: i / 7.0, lambda i: "s%d" % i, lambda i: (i, i / 3.0), lambda i: [i, "x'%d" % i, 1.5][i % 3],
                         lambda i: [(i,), i][i % 2]):
                data = [make(i) for i in range(n)]
                rec.state((c["c"], repr(data)))
                lst(data, dict(ncols=c["c"]))
    elif c["k"] == "d":
        combos = [()]
        if c["i"] == 0:
            env = execute(get_dict_string("d", {}), rec, "empty dictionary")
            rec.check(env == {"d": {}}, "dictionary read back", lambda: "{} reads back as %r" % env)
        for n in (1, 2, 3):
            for rest in itertools.combinations(KEYS[c["i"] + 1:], n - 1):
                keys = (KEYS[c["i"]],) + rest
                for vals in itertools.product(DVALS, repeat=n):
                    for order in (keys, keys[::-1]):
                        d = {k: vals[keys.index(k)] for k in order}
                        text = get_dict_string("d", d)
                        rec.state(repr(sorted(d.items(), key=repr)))
                        rec.step()
                        rec.trace()
                        env = execute(text, rec, "dictionary %r" % d)
                        rec.check(list(env) == ["d"], "variables", lambda: "%r defines %r" % (d, sorted(env)))
                        rec.check(same(env["d"], d), "dictionary read back", lambda: "%r reads back as %r" % (d, env["d"]))
    else:
        for h in range(c["lo"], c["hi"]):
            points = [h * 3600 + s for s in range(0, 3600, 1 if c["tier"] == "quick" and h < 3 or c["tier"] != "quick" and h < 30 else 60)]
            for p in points:
                for x in (p, float(p), math.nextafter(p, math.inf), math.nextafter(p, 0.0) if p else 0.0, p + 0.5, p + 1 / 3.0, p + 59.999999):
                    hh, mm, ss = convert_time(x)
                    rec.step()
                    rec.trace()
                    rec.state(x)
                    what = lambda: "%r s: %r h %r min %r s" % (x, hh, mm, ss)
                    rec.check(abs(hh * 3600 + mm * 60 + ss - x) <= 1e-12 * max(x, 1.0), "duration", what)
                    rec.check(hh >= 0 and 0 <= mm < 60 and 0 <= ss < 60, "range", what)
                    rec.check(hh == int(hh) and mm == int(mm), "whole hours and minutes", what)
    rec.sample({k: c[k] for k in c})
