"""C38: what is reported is what was calculated."""
import itertools
import logging
import os
import re
import mpmath
from .. import ref, build, mechs, kin, steady

PROPERTY = "C38"
TECHNIQUE = ("bounded exhaustive exploration: every table a real model writes to its log file is read back and compared, entry by entry, with the "
             "values returned and with the reference, over one-step mechanisms, the larger mechanisms x conditions x coverages, and over all "
             "histories of up to two (thorough: three) runs of one model")
RULE = "a state is (mechanism, condition, coverages) or (model, history of runs); a transition one table read back"
ASSUMPTIONS = ["a table is recognised by its title and delimited by its rules; numbers are compared to the digits printed, of which there are at least three"]
CASE_LIMIT = 800

# names that fill the columns of the tables
LONG = [
    ["CH3CH2COOCH2CH3_g + 2*_s -> CH3CH2COO_s + CH2CH3_s", "CH3CH2COO_s + CH2CH3_s + *_s + CO_g <-> CH3CH2COO-CH2CH3_2s + CO_s -> CH3CH2COOCH2CH3_g + 2*_s + CO_s"],
    ["CH3CH2CH2CH2COOCH2CH2CH2CH3_g + *_s -> CH3CH2CH2CH2COOCH2CH2CH2CH3_s", "CH3CH2CH2CH2COOCH2CH2CH2CH3_s -> CH3CH2CH2CH2CH2COOCH2CH2CH3_s"],
    ["12H_s -> 6H2_g + 12*_s", "H2_g + *_s -> H2_s"],
]
# exactly as long as a column, one less, one more
for n in (68, 69, 70, 71, 72):
    a = "CO_g + *_s -> CO_s"
    LONG.append([a, "O2_g + 2*_s " + " " * (n - 21) + "-> 2O_s"])
HEADS = [("k", "k_forward"), ("R", "R_forward"), ("tof", "Turnover Frequencies:"), ("rev", "Reversibilities:"), ("cvg", "Steady State Coverages:"), ("xrc", "Degree of Rate Control for ")]

RUNMODELS = {"er": "moderate", "ads": "moderate", "coox": "moderate", "diss": "weak", "iso": "strong", "liq": "moderate", "twosite": "moderate"}
OPTIONS = [dict(), dict(coarse_guess=False), dict(fsolve=True), dict(passed="weak"), dict(passed="weak", coarse_guess=False), dict(XRC=True), dict(XRC=True, passed="weak")]


def bounds(tier):
    return dict(mechanisms=len(kin.singles(tier)) + len(kin.BIG) + len(LONG), conditions=len(kin.conds(tier)), coverages="three per mechanism and condition",
                runs=[repr(o) for o in OPTIONS], histories="all of up to %d runs of one model" % (2 if tier == "quick" else 3), models=sorted(RUNMODELS))


def cases(tier):
    one = [[t] for t in kin.singles(tier)]
    big = [kin.BIG[k] for k in sorted(kin.BIG)] + LONG + [kin.BIG["five"] * 1]
    out = [dict(k="call", ms=one[i:i + 8], tier=tier) for i in range(0, len(one), 8)]
    out += [dict(k="call", ms=[m], tier=tier) for m in big]
    out += [dict(k="run", m=m, first=i, tier=tier) for m in sorted(RUNMODELS) for i, o in enumerate(OPTIONS)]
    return out


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.solvers.steady_state_solver, scipy.integrate, mpmath, sympy


class Log(object):
    def __init__(self, name="out.log"):
        self.name, self.pos = name, os.path.getsize(name) if os.path.exists(name) else 0

    def new(self):
        """The tables written since the last call: [(kind, title line, rows)]"""
        for h in logging.getLogger("model").handlers:
            h.flush()
        with open(self.name) as f:
            f.seek(self.pos)
            text = f.read()
            self.pos = f.tell()
        out, cur, state = [], None, 0
        for line in text.split("\n"):
            rule = len(line.strip()) > 3 and set(line.strip()) == {"-"}
            kind = [k for k, h in HEADS if h in line]
            if kind:
                cur, state = (kind[0], line, []), 1
            elif rule and state == 1:
                state = 2
            elif rule and state == 2:
                out.append(cur)
                state = 0
            elif state == 2:
                cur[2].append(line)
        return out, text


def value(text, want):
    """Does the text show the number?"""
    try:
        x = float(text)
    except ValueError:
        return False
    w = float(want)
    if x == w or x != x and w != w:
        return True
    digits = len(re.sub(r"[eE].*", "", text).replace(".", "").replace("-", "").lstrip("0"))
    return digits >= 3 and abs(x - w) <= 0.51 * 10.0 ** -(digits - 1) * abs(w) * 10 ** 0 * 2 + 1e-320


def table(rec, what, tabs, kind, names, cols, which=-1, title=None):
    """One of the tables of this kind lists exactly these names, in order, with these columns of values."""
    mine = [t for t in tabs if t[0] == kind and (title is None or title in t[1])]
    rec.check(len(mine) > 0, "no table", lambda: "%s: no %s table in the log" % (what(), kind))
    rows = mine[which][2]
    show = lambda: "%s: the %s table reads\n%s" % (what(), kind, "\n".join(rows))
    rec.check(len(rows) == len(names), "rows", lambda: show() + "\nfor %r" % (names,))
    for i, (r, nm) in enumerate(zip(rows, names)):
        k = len(cols)
        m = re.match(r"^(.*\S)" + r"\s+(\S+)" * k + r"\s*$", r)
        rec.check(bool(m), "row", lambda: show() + "\nrow %d is not a name with %d values" % (i, k))
        got = m.groups()
        name = got[0].strip()
        if kind not in ("k", "R"):
            m2 = re.match(r"^(\d+)\s+(.*)$", name)
            rec.check(bool(m2) and int(m2.group(1)) == i, "index", lambda: show() + "\nrow %d" % i)
            name = m2.group(2)
        rec.check(name == nm, "name", lambda: show() + "\nrow %d names %r, expected %r" % (i, name, nm))
        for t, c in zip(got[1:], cols):
            rec.check(value(t, c[i]), "value", lambda: show() + "\nrow %d says %s, expected %r" % (i, t, float(c[i])))
    rec.step()


def names(mech, m):
    return list(m.rxn_expressions), list(m.gas_names), list(m.adsorbate_names)


def call(c, rec):
    for texts in c["ms"]:
        mech = ref.Mech(texts)
        for cond in kin.conds(c["tier"]):
            from .. import env
            env.fresh()
            p, q, tot = kin.conditions(mech, cond)
            m = build.mkm(mech, energies=kin.energies(len(mech.rxns)), p=p, c=q, totals=tot, T=cond["T"], texts=texts)
            s = m.solver
            log = Log()
            rx, gas, ads = names(mech, m)
            sets = kin.grid(mech, cond, "quick")
            sets = [sets[0], sets[len(sets) // 2], sets[-1]]
            what = lambda: "%r at %s" % (texts, kin.ckey(cond))
            kf, kr = s.get_rate_constants(log=True)
            table(rec, what, log.new()[0], "k", rx, [kf, kr])
            rec.check(list(map(float, s.get_rate_constants()[0])) == list(map(float, kf)), "constants", what)
            rec.check(log.new()[0] == [], "unasked", lambda: what() + ": a table although none was asked for")
            for th in sets:
                th = tuple(th)
                act = kin.activity(mech, cond, th)
                wf, wr, ef, er = kin.rates(mech, kf, kr, act)
                rf, rr = s.get_rates(th, log=True)
                table(rec, what, log.new()[0], "R", rx, [rf, rr])
                for i in range(len(rx)):
                    kin.same(rec, rf[i], wf[i], "rate", mech, cond, th, i, ef[i])
                    kin.same(rec, rr[i], wr[i], "rate", mech, cond, th, i, er[i])
                tof = s.get_tof(th)
                table(rec, what, log.new()[0], "tof", gas, [list(tof)[:len(gas)]])
                for g in gas:
                    one = s.get_tof(th, gas_name=g)
                    table(rec, what, log.new()[0], "tof", gas, [list(tof)[:len(gas)]])
                    rec.check(float(one) == float(tof[gas.index(g)]), "one gas", what)
                rev = s.get_reversibilities(rf, rr)
                table(rec, what, log.new()[0], "rev", rx, [rev])
                for x, a, b in zip(rev, rf, rr):
                    ok = abs(x - float(b) / float(a)) <= 1e-12 * abs(x) if a != 0 and 1e-280 < abs(float(a)) else a != 0 or not mpmath.isfinite(x)
                    rec.check(ok, "reversibility", lambda: what() + ": reversibilities %r of rates %r, %r" % (rev, rf, rr))
                rec.state((tuple(texts), kin.ckey(cond), tuple(map(str, th))))
                rec.trace()
    rec.sample(dict(mechanism=texts))


def history(rec, c, hist):
    from .. import env
    env.fresh()
    name = c["m"]
    mech = ref.Mech(steady.MECHS[name])
    k, n = len(mech.rxns), len(mech.ads)
    m = build.mkm(mech, energies=steady.energies(RUNMODELS[name], k), rootfinding="MDNewton", tolerance=1e-8)
    s = m.solver
    log = Log()
    rx, gas, ads = names(mech, m)
    xrcs = []
    real = s.get_single_XRC

    def spy(*a, **kw):
        r = real(*a, **kw)
        xrcs.append(list(r))
        return r
    s.get_single_XRC = spy
    for j, i in enumerate(hist):
        o = dict(OPTIONS[i])
        what = lambda: "%s, runs %r" % (name, [OPTIONS[x] for x in hist[:j + 1]])
        e = steady.rel(o.pop("passed", None) or RUNMODELS[name], k)
        if OPTIONS[i].get("passed"):
            o["relative_energies"] = e
        if o.get("XRC"):
            o["product_name"] = mech.gas[0] if name in ("ads", "liq", "diss") else "HNC_g" if name == "iso" else "CO2_g"
        m.run(init_cvgs=[0.3 / n] * n, **o)
        tabs, text = log.new()
        before = text.split("Calculating Degree of Rate Control")[0]
        cut = len(tabs)
        if o.get("XRC"):
            # the tables of the run itself come before those of the perturbed states
            cut = next(x for x in range(1, len(tabs) + 1) if tabs[x - 1][0] == "rev")
        mine = tabs[:cut]
        th = list(m.steady_state_coverages)
        kf, kr = steady.constants(450.0, e)
        table(rec, what, mine, "k", rx, [kf, kr])
        with mpmath.workdps(80):
            act = mech.free([mpmath.mpf(x) for x in th], {x: mpmath.mpf(1) for x in mech.site})
            act.update({g: mpmath.mpf(1) for g in mech.gas + mech.liq})
            wf, wr, ef, er = kin.rates(mech, kf, kr, act)
        rf, rr = s.get_rates(tuple(th), relative_energies=e)
        for a, b, u in list(zip(rf, wf, ef)) + list(zip(rr, wr, er)):
            rec.check(abs(mpmath.mpf(a) - b) <= u, "rate", what)
        table(rec, what, mine, "R", rx, [rf, rr])
        table(rec, what, mine, "tof", gas, [list(m.TOFs)[:len(gas)]])
        table(rec, what, mine, "rev", rx, [m.reversibilities])
        if not o.get("fsolve"):
            table(rec, what, mine, "cvg", ads, [th])
            err = re.findall(r"error = (\S+)", before)
            d, u, _ = steady.evaluate(mech, 450.0, e, {}, {}, th)
            size = [mpmath.sqrt(sum(x * x for x in d)), max(abs(x) for x in d), mpmath.mpf(m.error)]
            rec.check(bool(err) and any(abs(mpmath.mpf(err[-1]) - v) <= sum(u) + mpmath.mpf("2e-6") * v for v in size), "error",
                      lambda: what() + ": logged errors %r, the model's %r" % (err, m.error))
        if o.get("XRC"):
            table(rec, what, tabs, "xrc", rx, [xrcs[-1]], title=o["product_name"])
            each = re.findall(r"XRC\((.*)\) = (\S+)", text)
            rec.check([x[0] for x in each] == rx and all(value(x[1], y) for x, y in zip(each, xrcs[-1])), "XRC", lambda: what() + ": logged %r, returned %r" % (each, xrcs[-1]))
        info = m.model_info
        want = dict(gas_names=gas, adsorbate_names=ads, steady_state_coverages=[float(x) for x in th], TOFs=[float(x) for x in m.TOFs], rxn_expressions=rx,
                    reversibilities=[float(x) for x in m.reversibilities])
        rec.check(sorted(info) == sorted(want), "model_info", lambda: what() + ": %r" % sorted(info))
        for x in want:
            got = [float(y) for y in info[x]] if x == "reversibilities" else list(info[x])
            rec.check(got == want[x], "model_info", lambda: what() + ": %s is %r, expected %r" % (x, info[x], want[x]))
        rec.state((name, tuple(hist[:j + 1])))
        rec.outcome((name, i, tuple("%.9e" % float(x) for x in th)))
    rec.trace()


def run_case(c, rec):
    logging.disable(logging.NOTSET)
    try:
        if c["k"] == "call":
            call(c, rec)
        else:
            rest = range(len(OPTIONS))
            for tail in itertools.product(rest, repeat=1 if c["tier"] == "quick" else 2):
                history(rec, c, (c["first"],) + tail)
    finally:
        logging.disable(logging.CRITICAL)
