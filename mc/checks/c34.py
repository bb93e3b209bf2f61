"""C34: energy templates."""
import itertools
import os
import re
from .. import ref, build, mechs, kin

PROPERTY = "C34"
TECHNIQUE = ("bounded exhaustive exploration: all one-step mechanisms over the term alphabets, all ordered pairs and triples of a base set "
             "on the real model: template generated, compared with the mechanism, filled in with distinct numbers and loaded again")
RULE = "a state is (mechanism, kind of template); a transition one template generated or loaded"
ASSUMPTIONS = ["a slot of the relative template is an append without a value, one of the absolute template is an entry of the dictionary",
               "filling in replaces nothing but the empty slots and the zeros"]
BASE = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "H2O_l + *_s -> H2O_s", "CO_s + *_t -> CO_t + *_s",
        "OH_s + H_t <-> H-OH_s + *_t -> H2O_s + *_t", "O2_g + 2*_s -> O2_2s", "HCN_s -> HNC_s", "CO2_l -> CO2_g", "NO_s + *_s <-> N-O_2s -> N_s + O_s",
        "2CO_g + 2*_s -> 2CO_s", "CO_g  +  *_s->CO_s"]


def bounds(tier):
    return dict(single_steps=len(singles()), large="kin.BIG (up to 15 steps), in order and reversed", base_steps=len(BASE), tuples="all ordered pairs, repetitions included; all ordered triples%s" % ("" if tier == "quick" else "; all ordered quadruples of the first 8"))


def singles():
    return mechs.singles(sorted(mechs.ALPHA), 2, 2)


def cases(tier):
    s = singles()
    out = [dict(steps=[[t] for t in s[i:i + 20]]) for i in range(0, len(s), 20)]
    out += [dict(steps=[[a, b] for b in BASE]) for a in BASE]
    out += [dict(steps=[[a, b, d] for d in BASE]) for a in BASE for b in BASE]
    if tier != "quick":
        out += [dict(steps=[[a, b, d, e] for e in BASE[:8]]) for a in BASE[:8] for b in BASE[:8] for d in BASE[:8]]
    return out + [dict(steps=[mechs.CYCLES[k] for k in sorted(mechs.CYCLES)])] + [dict(steps=[list(kin.BIG[k])[::d] for k in sorted(kin.BIG) for d in (1, -1)])]


def run_case(c, rec):
    for texts in c["steps"]:
        mech = ref.Mech([re.sub(r"\s*\+\s*", " + ", re.sub(r"\s*(<?->)\s*", r" \1 ", t)) for t in texts])
        relative(mech, texts, rec)
        absolute(mech, texts, rec)
    rec.sample(c["steps"][-1])


def value(i):
    return round(0.37 + 0.0831 * i, 6)


def relative(mech, texts, rec):
    m = build.mkm(mech, texts=texts, get_data=False)
    name = "rel_template.py"
    open(name, "w").write("left over from before\n" * 50)
    m.generate_relative_energies_file(name)
    text = open(name).read()
    rec.state(("relative", tuple(texts)))
    rec.step(2)
    what = lambda: "%r\n%s" % (texts, text)
    lines = text.splitlines()
    slots = {"Ga": [], "dG": []}
    heading, headings = None, []
    for line in lines:
        if line.lstrip().startswith("#"):
            heading = line
        for k in slots:
            for _ in re.findall(r"\b%s\.append\(\s*\)" % k, line):
                slots[k].append(heading)
    for k in slots:
        rec.check(len(slots[k]) == len(texts), "slots", lambda: "%d slots for %s; %s" % (len(slots[k]), k, what()))
        for h, t in zip(slots[k], texts):
            rec.check(h is not None and t in h, "slot of another step", lambda: "slot %r where %r is due; %s" % (h, t, what()))
    n = {"Ga": [0], "dG": [0]}
    ga = [value(2 * i) for i in range(len(texts))]
    dg = [-value(2 * i + 1) for i in range(len(texts))]

    def fill(match):
        k = match.group(1)
        n[k][0] += 1
        return "%s.append(%r)" % (k, (ga if k == "Ga" else dg)[n[k][0] - 1])
    open(name, "w").write(re.sub(r"\b(Ga|dG)\.append\(\s*\)", fill, text))
    m.parser.parse_data(filename=name)
    e = m.relative_energies
    rec.check(list(e["Gaf"]) == ga and list(e["dG"]) == dg, "energies loaded", lambda: "%r and %r filled in, %r loaded; %s" % (ga, dg, e, what()))
    rec.check(all(abs(r - (a - d)) < 1e-12 for r, a, d in zip(e["Gar"], ga, dg)), "reverse barriers", what)
    os.remove(name)
    rec.trace()


def absolute(mech, texts, rec):
    m = build.mkm(mech, texts=texts, get_data=False, parser="AbsoluteEnergyParser")
    name = "abs_template.py"
    open(name, "w").write("left over from before\n" * 50)
    m.generate_absolute_energies_file(name)
    text = open(name).read()
    rec.state(("absolute", tuple(texts)))
    rec.step(2)
    what = lambda: "%r\n%s" % (texts, text)
    env = {}
    exec(text, env)
    got = env["absolute_energies"]
    want = mech.gas + mech.liq + mech.ads + mech.ts + mech.site
    rec.check(sorted(got) == sorted(want), "entries", lambda: "entries %r, expected %r; %s" % (sorted(got), sorted(want), what()))
    for n in want:
        rec.check(len(re.findall(r"""['"]%s['"]\s*:""" % re.escape(n), text)) == 1, "entry repeated", lambda: "%s; %s" % (n, what()))
    rec.check(all(type(v) is float for v in got.values()), "entries", what)
    fill = {n: (-1) ** i * value(i) for i, n in enumerate(want)}
    for n in want:
        text = re.sub(r"""(['"]%s['"]\s*:\s*)0\.0""" % re.escape(n), lambda k: k.group(1) + repr(fill[n]), text)
    open(name, "w").write(text)
    m.parser.parse_data(filename=name)
    rec.check(dict(m.absolute_energies) == fill, "energies loaded", lambda: "%r filled in, %r loaded; %s" % (fill, m.absolute_energies, what()))
    e = m.relative_energies
    rec.check(len(e["dG"]) == len(texts), "energies loaded", what)
    for i, r in enumerate(mech.rxns):
        s = [sum(t.n * fill[t.name() if t.sp != "*" else "*_" + t.site] * (t.nsite if t.sp == "*" else 1) for t in st) for st in r.states]
        rec.check(abs(e["dG"][i] - (s[-1] - s[0])) < 1e-9, "reaction energy", lambda: "step %d of %s: %r" % (i, what(), e))
        barrier = s[1] - s[0] if len(s) == 3 else max(0.0, s[-1] - s[0])
        rec.check(abs(e["Gaf"][i] - barrier) < 1e-9, "barrier", lambda: "step %d of %s: %r, expected %r" % (i, what(), e, barrier))
    os.remove(name)
    rec.trace()
