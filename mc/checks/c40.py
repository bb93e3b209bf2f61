"""C40: energy profiles."""
import itertools
import os
from .. import ref, build, mechs, env, kin

PROPERTY = "C40"
TECHNIQUE = ("bounded exhaustive exploration: the pictures the real plotter draws for every mechanism of a bounded space (steps with and without "
             "transition state x energies x drawing options, in every order) are taken at the moment they are saved, and the lines in them are read "
             "back and compared with the model's energies")
RULE = "a state is (mechanism, energies, options, what was drawn before); a transition one picture read back"
ASSUMPTIONS = ["a peak is drawn by interpolation: it reaches the barrier to within a tenth of the height of the picture",
               "barriers of less than 1e-5 eV are none"]
CASE_LIMIT = 800

STEPS = ["CO_g + *_s -> CO_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "CO_g + CO_s + *_s -> 2CO_s", "H2O_l + *_s -> H2O_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s",
         "CO_s + *_t <-> CO_t + *_s -> CO_t + *_s", "CO_s + *_t -> CO_t + *_s"]
# (Ga, dG)
ENERGIES = [(0.0, -0.5), (0.0, 0.0), (0.6, 0.6), (0.5, -0.8), (0.9, 0.4), (0.25, 0.0), (0.0, 0.7), (1.5, -2.25), (2e-5, -1.0), (3e-6, -1.0), (0.4, 0.399997)]
OPTIONS = [dict(), dict(color="#FF0000", line_width=5), dict(n=31), dict(hline_length=2.0, peak_width=3.0), dict(interp_method="quadratic")]


def bounds(tier):
    return dict(steps=STEPS, energies=ENERGIES, options=OPTIONS, mechanisms="all steps with all energies; all ordered pairs, repetitions included, of steps (thorough: with all pairs of energies); 15 steps, in order and reversed, with the energies handed out in turn",
                parser=["relative", "absolute"], directory=["absent", "present"])


def cases(tier):
    out = [dict(s=[s], e=e, o=o, dir=o % 2, tier=tier) for s in STEPS for e in range(len(ENERGIES)) for o in range(len(OPTIONS)) if tier == "thorough" or o == 0 or s in STEPS[:2]]
    prs = list(itertools.product(STEPS, STEPS))
    es = range(len(ENERGIES)) if tier == "thorough" else (0, 3, 4)
    out += [dict(s=list(p), e=e, f=f, o=0, dir=(e + f) % 2, tier=tier) for p in prs for e in es for f in es]
    out += [dict(abs=i, tier=tier) for i in range(6)]
    out += [dict(s=list(kin.BIG["long"])[::d], e=e, f=f, o=o, dir=e % 2, tier=tier) for d in (1, -1) for e in range(len(ENERGIES)) for f, o in ((0, 0), (1, 1))]
    out.append(dict(real=1))
    return out


def worker_init():
    import scaks.models.micro_kinetic_model, scaks.plotters.energy_profile_plotter, matplotlib.figure


class Saved(object):
    """The pictures saved: (path, [(x, y, colour, width)])."""

    def __enter__(self):
        import matplotlib.figure
        self.pics = []
        self.F = matplotlib.figure.Figure
        self.real = self.F.savefig

        def save(fig, path, *a, **k):
            d = os.path.dirname(path)
            if d and not os.path.isdir(d):
                raise IOError("no directory for %s" % path)
            lines = [([float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()], l.get_color(), l.get_linewidth()) for ax in fig.axes for l in ax.lines]
            self.pics.append((path, lines, [(ax.get_xlim(), ax.get_ylim()) for ax in fig.axes]))
        self.F.savefig = save
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        self.F.savefig = self.real
        plt.close("all")


def judge(rec, what, m, pics, opt):
    rx = list(m.rxn_expressions)
    ga, gr, dg = (list(m.relative_energies[k]) for k in ("Gaf", "Gar", "dG"))
    rec.check(len(pics) == len(rx), "pictures", lambda: "%s: %d pictures for %d steps" % (what(), len(pics), len(rx)))
    rec.check(len({p[0] for p in pics}) == len(pics), "overwritten", lambda: "%s: %r" % (what(), [p[0] for p in pics]))
    for i, (path, lines, lims) in enumerate(pics):
        w = lambda: "%s: picture %d, %s" % (what(), i, path)
        name = os.path.basename(path)
        rec.check(rx[i] in name and name.startswith("%d" % i), "name", w)
        lines = [l for l in lines if len(l[0]) > 10]
        rec.check(len(lines) == 1, "lines", lambda: w() + " has %d lines" % len(lines))
        x, y, col, wid = lines[0]
        top = max(ga[i], 0.0, dg[i])
        low = min(0.0, dg[i])
        h = max(top - low, 1e-9)
        txt = lambda: w() + " starts at %g, peaks at %g, ends at %g; barrier %g, reaction energy %g" % (y[0], max(y), y[-1], ga[i], dg[i])
        rec.check(abs(y[0]) < 1e-9 and abs(y[-1] - dg[i]) < 1e-9, "ends", txt)
        hl, pw = opt.get("hline_length", 1.0), opt.get("peak_width", 1.0)
        rec.check(all(abs(b) < 1e-9 for a, b in zip(x, y) if a < x[0] + hl - 1e-6) and all(abs(b - dg[i]) < 1e-9 for a, b in zip(x, y) if a > x[-1] - hl + 1e-6), "levels", txt)
        rec.check(all(a <= b + 1e-9 for a, b in zip(x, x[1:])) and abs(x[-1] - x[0] - 2 * hl - pw) < 1e-6, "width", txt)
        if min(ga[i], ga[i] - dg[i]) < 9e-6:
            rec.check(abs(max(y) - max(0.0, dg[i])) <= 1e-3 * h, "peak without barrier", txt)
        elif min(ga[i], ga[i] - dg[i]) > 1.1e-5:
            rec.check(abs(max(y) - ga[i]) <= 0.1 * h and (max(y) > max(0.0, dg[i]) or min(ga[i], ga[i] - dg[i]) < 1e-3), "peak", txt)
        for (lo, hi), (a, b) in lims:
            rec.check(a <= min(y) + 0.05 * h and b >= max(y) - 0.05 * h and lo <= x[0] + 0.1 and hi >= x[-1] - 0.1, "cut off", lambda: txt() + ", limits %r" % ((a, b),))
        rec.check(col == opt.get("color", "#000000") and wid == opt.get("line_width", 3), "style", lambda: w() + " %r %r" % (col, wid))
        rec.step()
        rec.outcome((round(ga[i], 5), round(dg[i], 5), len(x)))


ABS = {"CO_g": -0.4, "*_s": 0.0, "CO_s": -1.25, "O_s": -0.75, "CO-O_2s": -1.1, "CO2_g": -3.5, "O2_g": 0.3, "O-O_2s": 0.9, "*_t": 0.0, "CO_t": -0.9, "H2O_l": 0.2, "H2O_s": -0.1}


def run_case(c, rec):
    if "real" in c:
        m = build.mkm(ref.Mech(STEPS[:3]), energies=([0.0, 1.1, 0.6], [-0.5, -0.8, 0.6]))
        m.plotter.plot_all()
        import matplotlib.pyplot as plt
        plt.close("all")
        fs = sorted(os.listdir("energy_profile"))
        rec.check(len(fs) == 3 and all(open(os.path.join("energy_profile", f), "rb").read(4) == b"\x89PNG" for f in fs), "files", lambda: "saved %r" % fs)
        rec.state("files")
        rec.trace()
        return
    if "abs" in c:
        for texts in itertools.permutations(STEPS, 2):
            if hash_(texts) % 6 != c["abs"]:
                continue
            mech = ref.Mech(list(texts))
            env.fresh()
            m = build.mkm(mech, absolute={k: v for k, v in ABS.items() if k in mech.gas + mech.liq + mech.ads + mech.site + mech.ts})
            m.parser.parse_data
            with Saved() as s:
                m.plotter.plot_all()
            judge(rec, lambda: "%r from absolute energies" % (texts,), m, s.pics, {})
            rec.state(texts)
            rec.trace()
        return
    texts = c["s"]
    mech = ref.Mech(texts)
    es = [ENERGIES[c["e"]]] + ([ENERGIES[c["f"]]] if len(texts) == 2 else [ENERGIES[(c["e"] + i * (1 + 2 * c["f"])) % len(ENERGIES)] for i in range(1, len(texts))])
    m = build.mkm(mech, energies=([e[0] for e in es], [e[1] for e in es]), texts=texts)
    opt = dict(OPTIONS[c["o"]])
    if opt.get("interp_method") == "quadratic" and any(abs(e[1]) < 1e-9 for e in es):
        return      # catplot cannot draw these
    if c["dir"]:
        os.mkdir("energy_profile")
    before = {k: list(v) for k, v in m.relative_energies.items()}
    for again in range(2 if c["tier"] == "thorough" else 1 + c["dir"]):
        with Saved() as s:
            m.plotter.plot_all(**opt)
        judge(rec, lambda: "%r, energies %r, options %r" % (texts, es, opt), m, s.pics, opt)
    rec.check({k: list(v) for k, v in m.relative_energies.items()} == before, "energies", lambda: "%r: drawing changed the energies" % texts)
    rec.state((tuple(texts), tuple(es), repr(opt)))
    rec.trace()
    rec.sample(dict(steps=texts, energies=es, options=opt))


def hash_(x):
    return sum(ord(ch) for t in x for ch in t)
