"""C41: typeset formulas."""
import itertools
import os
import re
from .. import ref, build, mechs, kin, env

PROPERTY = "C41"
TECHNIQUE = ("bounded exhaustive exploration: the formula file a real model writes is read back after every history of up to three requests over "
             "one-step mechanisms, ordered pairs and the larger mechanisms, and compared with the expressions returned")
RULE = "a state is (mechanism, history of requests); a transition one request"
ASSUMPTIONS = ["an expression is typeset by SymPy"]
CASE_LIMIT = 800
OPS = ["rates", "dtheta", "rates quietly", "dtheta quietly"]


def bounds(tier):
    return dict(mechanisms=len(cases(tier)), requests=OPS, histories="all of up to %d requests" % (2 if tier == "quick" else 3))


def cases(tier):
    one = [[t] for t in kin.singles("quick")]
    two = kin.pairs("quick")
    ms = one + (two[::5] if tier == "quick" else two) + [kin.BIG[k] for k in sorted(kin.BIG)]
    return [dict(ms=ms[i:i + 4], tier=tier) for i in range(0, len(ms), 4)]


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.solvers.steady_state_solver, sympy


def balanced(s):
    d = 0
    for ch in s:
        d += (ch == "{") - (ch == "}")
        if d < 0:
            return False
    return d == 0


def lines(what, rec, text):
    out = []
    for l in text.split("\n"):
        l = l.strip()
        if not l:
            continue
        rec.check(l.endswith("\\\\") and " = " in l, "line", lambda: "%s: %r is not an equation" % (what(), l))
        rec.check(balanced(l), "braces", lambda: "%s: braces of %r do not match" % (what(), l))
        a, b = l[:-2].split(" = ", 1)
        out.append((a.strip(), b.strip()))
    return out


def run_case(c, rec):
    import sympy
    depth = 2 if c["tier"] == "quick" else 3
    for texts in c["ms"]:
        mech = ref.Mech(texts)
        n = len(mech.rxns)
        hists = [h for k in range(1, depth + 1) for h in itertools.product(range(4), repeat=k)]
        if n > 2:
            hists = [h for h in hists if len(h) == 2 and h[0] < 2]
        m = build.mkm(mech, energies=kin.energies(n), texts=texts, sym=True)
        s = m.solver
        quiet = dict(rates=s.get_rate_syms(), dtheta=s.get_dtheta_dt_syms())
        rec.check(not os.path.exists("formulas.tex"), "unasked", lambda: "%r: a formula file although none was asked for" % texts)
        for h in hists:
            if os.path.exists("formulas.tex"):
                os.remove("formulas.tex")
            want = []
            what = lambda: "%r, requests %r" % (texts, [OPS[i] for i in h])
            for i in h:
                kind, loud = OPS[i].split()[0], "quietly" not in OPS[i]
                r = (s.get_rate_syms if kind == "rates" else s.get_dtheta_dt_syms)(log_latex=loud)
                flat = lambda x: [e for y in x for e in y] if kind == "rates" else list(x)
                rec.check(flat(r) == flat(quiet[kind]), "expressions", lambda: what() + ": other expressions are returned when they are written")
                rec.step()
                if loud:
                    if kind == "rates":
                        want += [("+", j + 1, e) for j, e in enumerate(r[0])] + [("-", j + 1, e) for j, e in enumerate(r[1])]
                    else:
                        want += [("d", j + 1, e) for j, e in enumerate(r)]
            text = open("formulas.tex").read() if os.path.exists("formulas.tex") else ""
            got = lines(what, rec, text)
            rec.check(len(got) == len(want), "formulas", lambda: what() + ": %d formulas, expected %d:\n%s" % (len(got), len(want), text))
            for (a, b), (k, j, e) in zip(got, want):
                ok = re.findall(r"\d+", a) == [str(j)] and (("theta" in a) == (k == "d")) and (k == "d" or ("+" in a) == (k == "+"))
                rec.check(ok, "left side", lambda: what() + ": %r stands for %s%d" % (a, k, j))
                rec.check(b == sympy.latex(e), "right side", lambda: what() + ": %r = %r, expected %r" % (a, b, sympy.latex(e)))
            rec.state((tuple(texts), h))
            rec.trace()
        os.path.exists("formulas.tex") and os.remove("formulas.tex")
    rec.sample(dict(mechanism=texts))
