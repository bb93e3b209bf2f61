"""C37: Boltzmann coverages."""
import itertools
import mpmath
from .. import ref, build, mechs, kin

PROPERTY = "C37"
TECHNIQUE = ("bounded exhaustive exploration: all assignments of energies from a grid to the surface species of mechanisms "
             "with one and two site types x totals x temperatures on the real solver, against the Boltzmann distribution")
RULE = "a state is (mechanism, totals, temperature, energies); a transition one evaluation of the coverages"
ASSUMPTIONS = ["a bidentate adsorbate counts like any other adsorbate on its site type"]
MECHS = {
    "one": ["CO_g + *_s -> CO_s"], "co": mechs.CYCLES["coox"], "two": mechs.CYCLES["twosite"], "hop": mechs.CYCLES["hop"],
    "iso": mechs.CYCLES["iso"], "liq": mechs.CYCLES["liq"], "three": ["CO_g + *_s -> CO_s", "CO_s + *_t -> CO_t + *_s", "CO_t + *_u -> CO_u + *_t"],
    "bident": ["O2_g + 2*_s -> O2_2s", "O2_2s -> 2O_s"], "bare": ["CO_s + *_t + *_s -> CO_s + *_t + *_s", "CO_g + *_s -> CO_s"],
}
E = [0.0, -0.62, 1.3, -4.0]
TOT = [{}, {"*_s": 0.5, "*_t": 0.25, "*_u": 2.0}, {"*_s": 2, "*_t": 1}]


def temps(tier):
    return [298.15, 450, 1000.75] if tier == "quick" else [10.0, 77, 300.0, 450, 523.5, 700.0, 1000.0, 3000.0]


def bounds(tier):
    return dict(mechanisms=len(MECHS), energies=E, totals=len(TOT), temperatures=temps(tier))


def cases(tier):
    return [dict(m=k, T=T, tot=i) for k in sorted(MECHS) for T in temps(tier) for i in range(len(TOT))]


def run_case(c, rec):
    mech = ref.Mech(MECHS[c["m"]])
    T = c["T"]
    tot = {s: TOT[c["tot"]].get(s, 1.0) for s in mech.site}
    m = build.mkm(mech, T=T, totals=tot, absolute={n: 0.0 for n in mech.gas + mech.liq + mech.ads + mech.ts + mech.site})
    sp = mech.ads + mech.site
    other = {n: 0.25 for n in mech.gas + mech.liq + mech.ts}
    grid = itertools.product(E, repeat=len(sp))
    for v in grid:
        ab = dict(zip(sp, v))
        with open("abs_in.py", "w") as f:
            f.write("absolute_energies = %r\n" % (dict(ab, **other),))
        m.parser.parse_data(filename="./abs_in.py")
        w = {n: mpmath.exp(-mpmath.mpf(e) / (mpmath.mpf(ref.KB_EV) * T)) for n, e in ab.items()}
        for empty in (True, False):
            got = m.solver.boltzmann_coverages() if empty else m.solver.boltzmann_coverages(include_empty_site=False)
            rec.step()
            d = dict(zip(mech.ads, got))
            rec.check(len(got) == len(mech.ads), "length", "%r: %d coverages" % (mech.texts(), len(got)))
            for s in mech.site:
                mine = [a for a in mech.ads if "*_" + mech.info[a].site == s]
                z = sum(w[a] for a in mine) + (w[s] if empty else 0)
                for a in mine:
                    x = tot[s] * w[a] / z
                    rec.check(build.close(d[a], x, 1e-12, mpmath.mpf(10) ** -200), "coverage",
                              lambda: "%r, energies %r, totals %r, T=%r, empty sites %r: %s covers %s, expected %s" % (
                                  mech.texts(), ab, tot, T, empty, a, mpmath.nstr(d[a], 15), mpmath.nstr(x, 15)))
                    rec.check(0 <= d[a] <= tot[s], "range", "%s out of range" % a)
                if mine:
                    free = tot[s] * w[s] / z if empty else 0
                    rec.check(build.close(sum(d[a] for a in mine) + free, tot[s], 1e-12), "sum", lambda: "%r %r: coverages on %s do not add up" % (mech.texts(), ab, s))
                for a, b in itertools.combinations(mine, 2):
                    rec.check(build.close(d[a] * w[b], d[b] * w[a], 1e-10, mpmath.mpf(10) ** -200), "ratio", "ratio of %s and %s" % (a, b))
        rec.state((c["m"], T, c["tot"], v))
        rec.outcome(tuple(mpmath.nstr(x, 12) for x in got))
        rec.trace()
    rec.sample(dict(mechanism=mech.texts(), T=T, totals=tot, energies=ab))
