"""C04: stoichiometric matrices."""
import itertools
from .. import ref, build, mechs, kin

PROPERTY = "C04"
TECHNIQUE = ("bounded exhaustive exploration of all one- to three-step mechanisms over term alphabets on the real "
             "matrix construction, against directly counted net changes")
RULE = "a state is one mechanism; a transition one construction of the two matrices by the real code"
ASSUMPTIONS = ["column order is site names then adsorbates, gases then liquids, as documented"]


def pool(tier):
    return mechs.singles(mechs.ALPHA, 3 if tier == "thorough" else 2, 2)


def pool2(tier):
    big = mechs.singles(mechs.ALPHA, 2, 2)
    return big if tier == "thorough" else big[::3] + mechs.EXTRA


def bounds(tier):
    return dict(one_step=len(pool(tier)), two_step_pool=len(pool2(tier)),
                three_step_pool=len(pool3(tier)),
                large="the mechanisms of kin.BIG (up to 15 steps), in order and reversed")


def pool3(tier):
    b = mechs.EXTRA + mechs.singles(mechs.ALPHA)[::9]
    return b if tier == "thorough" else b[:20]


def cases(tier):
    out = [dict(k=1, tier=tier, i=i) for i in range(0, len(pool(tier)), 40)]
    out += [dict(k=2, tier=tier, i=i) for i in range(len(pool2(tier)))]
    out += [dict(k=3, tier=tier, i=i) for i in range(len(pool3(tier)))]
    out += [dict(k=0, name=n) for n in sorted(kin.BIG)]
    return out


def one(texts, rec):
    mech = ref.Mech(texts)
    if not rec.state(tuple(texts)):
        return
    m = build.mkm(mech, solver=None, get_data=False)
    rec.step()
    S, G = m.parser.get_stoichiometry_matrices()
    cols_s, cols_g = mech.site + mech.ads, mech.gas + mech.liq
    rec.check(S.shape == (len(texts), len(cols_s)) and G.shape == (len(texts), len(cols_g)), "shape",
              "%r: shapes %r %r" % (texts, S.shape, G.shape))
    for i, r in enumerate(mech.rxns):
        for M, cols, nm in ((S, cols_s, "site"), (G, cols_g, "reapro")):
            got = [float(M[i, j]) for j in range(len(cols))]
            want = [float(-mech.net(r, x)) for x in cols]
            rec.check(got == want, nm, "%r step %d: %s row over %r is %r, expected %r" % (texts, i, nm, cols, got, want))
        # balance of every row
        el, si = {}, {}
        for M, cols in ((S, cols_s), (G, cols_g)):
            for j, x in enumerate(cols):
                v = float(M[i, j])
                t = ref.f(x)
                for e, n in t.elements().items():
                    el[e] = el.get(e, 0) + v * n
                if t.site not in ("g", "l"):
                    si[t.site] = si.get(t.site, 0) + v * t.nsite
        rec.check(all(v == 0 for v in list(el.values()) + list(si.values())), "balance",
                  "%r step %d: row sums %r %r" % (texts, i, el, si))
    rec.trace()
    rec.outcome(repr(S.tolist()))
    rec.sample(dict(mechanism=texts, matrix=S.tolist()))


def run_case(c, rec):
    if c["k"] == 0:
        for texts in (list(kin.BIG[c["name"]]), list(kin.BIG[c["name"]])[::-1]):
            one(texts, rec)
    elif c["k"] == 1:
        for t in pool(c["tier"])[c["i"]:c["i"] + 40]:
            one([t], rec)
    elif c["k"] == 2:
        P = pool2(c["tier"])
        for b in P:
            if b != P[c["i"]]:
                one([P[c["i"]], b], rec)
    else:
        P = pool3(c["tier"])
        a = P[c["i"]]
        for b, d in itertools.permutations(P, 2):
            if a not in (b, d):
                one([a, b, d], rec)
