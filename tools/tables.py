"""Rewrites the generated tables of DESIGN.md (between the <!-- begin X --> and <!-- end X --> lines):
runs from evidence/*.json (of the last quick run), reverts from tools/reverts.txt, seeds from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = """c09_ct_rev c09_ct_twice c01_type c25_rotor c37_temp c24_name c03_tex c12_upper c08_float c22_tof c39_falsy c27_times c31_move
c15_clip c05_both c27_ten c28_layers c29_wide""".split()


def runs():
    out = ["| check | cases | states | transitions | traces on the real code | outcomes | seconds |", "|---|---|---|---|---|---|---|"]
    for f in sorted(glob.glob(V + "/evidence/*.json")):
        d = json.load(open(f))
        if d["tier"] != "quick":
            continue
        c = d["coverage"]
        out.append("| %s | %s | %s | %s | %s | %s | %s |" % (d["property"], c["cases"], c["states"], c["transitions"], c["traces_validated_against_impl"], c["distinct_outcomes"] or "–", round(d["wall_s"])))
    return out


def reverts():
    out = ["| commit undone | check | what the check says |", "|---|---|---|"]
    p = V + "/tools/reverts.txt"
    for l in open(p) if os.path.exists(p) else []:
        out.append("| %s | %s | %s |" % tuple(l.rstrip("\n").split("\t")))
    return out


def seeds():
    out = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
        out.append("| %s | %s | %s | yes%s |" % (d, m["property"], m["needs"].replace("|", "/"), " (first missed)" if d in FIRST_MISSED else ""))
    return out


p = V + "/DESIGN.md"
s = open(p).read()
for name, f in (("runs", runs), ("reverts", reverts), ("seeds", seeds)):
    a, b = "<!-- begin %s -->\n" % name, "<!-- end %s -->" % name
    if a in s:
        s = s[:s.index(a) + len(a)] + "\n".join(f()) + "\n" + s[s.index(b):]
open(p, "w").write(s)
