"""C05: the overall reaction equation."""
import itertools
import re
from fractions import Fraction
from math import gcd
from .. import ref, build, mechs

PROPERTY = "C05"
TECHNIQUE = ("bounded exhaustive exploration: single-cycle mechanisms in every step order with every subset of steps "
             "reversed, on the real code, against an exact rational null-space computation")
RULE = "a state is one mechanism (steps, order, directions); a transition one derivation of the overall equation"
ASSUMPTIONS = ["the overall equation may be given in either direction when the steps of the cycle do not all point the same way"]

CYC = {
    "coox": ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"],
    "coox4": ["CO_g + *_s -> CO_s", "O2_g + *_s -> O2_s", "O2_s + *_s -> 2O_s", "CO_s + O_s -> CO2_g + 2*_s"],
    "er": ["O2_g + 2*_s -> 2O_s", "CO_g + O_s <-> CO-O_s -> CO2_g + *_s"],
    "nh3": ["N2_g + 2*_s -> 2N_s", "H2_g + 2*_s -> 2H_s", "N_s + 3H_s -> NH3_g + 4*_s"],
    "nh3s": ["N2_g + 2*_s -> 2N_s", "H2_g + 2*_s -> 2H_s", "N_s + H_s -> NH_s + *_s", "NH_s + 2H_s -> NH3_g + 3*_s"],
    "iso": ["HCN_g + *_s -> HCN_s", "HCN_s -> HNC_s", "HNC_s -> HNC_g + *_s"],
    "liq": ["H2O_l + *_s -> H2O_s", "H2O_s -> H2O_g + *_s"],
    "liq2": ["H2O_l + 2*_s -> H_s + OH_s", "2H_s -> H2_g + 2*_s", "2OH_s -> O2_l + 2H_s"],
    "two": ["CO_g + *_s -> CO_s", "O2_g + 2*_t -> 2O_t", "CO_s + O_t <-> CO-O_s + *_t -> CO2_g + *_s + *_t"],
    "ch4": ["CH4_g + *_s -> CH4_s", "CH4_s + 4*_s -> C_s + 4H_s", "2H_s -> H2_g + 2*_s", "C_s + O2_g -> CO2_g + *_s"],
    "four": ["C_s + 4H_s -> CH4_g + 5*_s", "CO_g + *_s -> CO_s", "2CO_s -> C_s + CO2_s", "CO2_s -> CO2_g + *_s", "H2_g + 2*_s -> 2H_s"],
    "third": ["O3_g + 3*_s -> 3O_s", "CO_g + O_s -> CO2_g + *_s"],
    "half": ["2NO_g + 2*_s -> N2_g + 2O_s", "2O_s -> O2_g + 2*_s"],
    "cat": ["CO_g + *_s -> CO_s", "CO_s + H2O_g + *_s -> COOH_s + H_s", "O2_g + 2*_s -> 2O_s",
            "COOH_s + O_s + H_s -> CO2_g + H2O_g + 3*_s"],
    "dead": ["CO_g + *_s -> CO_s", "CO_s + O2_g -> CO3_s", "CO3_s + CO_g -> 2CO2_g + *_s"],
    "deadend": ["O2_g + 2*_s -> 2O_s", "CO_g + O_s -> CO2_g + *_s", "NO_g + *_s -> NO_s"],
    "deadend2": ["CO_g + *_s -> CO_s", "HCN_g + *_t -> HCN_t", "HCN_t -> HNC_g + *_t"],
    "mult": ["P4_g + 4*_s -> 4P_s", "Cl2_g + 2*_s -> 2Cl_s", "P_s + 3Cl_s -> PCl3_g + 4*_s"],
    "s8": ["S8_g + 8*_s -> 8S_s", "S_s + O2_g -> SO2_g + *_s"],
    "twelve": ["H2_g + 2*_s -> 2H_s", "6H_s + N2_g -> 2NH3_g + 6*_s"],
}


# overall coefficients of every size (written with one, two and three digits), on either side
POLY = {"quick": list(range(3, 34)) + [99, 100, 101, 110, 111, 120], "thorough": list(range(3, 131))}
for _n in sorted(set(POLY["quick"] + POLY["thorough"])):
    CYC["poly%d" % _n] = ["C%dH%d_g + %d*_s -> %dCH2_s" % (_n, 2 * _n, _n, _n), "CH2_s -> CH2_g + *_s"]


def spectators():
    """Each step of each cycle with a species on both of its sides, and the steps with repeated species written out."""
    out = {}
    for k in sorted(CYC):
        if k.startswith("poly"):
            continue
        m = ref.Mech(CYC[k])
        extra = [("new", "AR_g"), ("own", (m.gas + m.liq)[-1]), ("first", (m.gas + m.liq)[0]), ("twice", "2" + (m.gas + m.liq)[-1])]
        extra += [("ads", m.ads[0]), ("site", m.site[0]), ("liquid", "C2H5OH_l")]
        for i, t in enumerate(CYC[k]):
            for tag, x in extra:
                out["%s+%s%d" % (k, tag, i)] = [u if j != i else with_extra(t, x) for j, u in enumerate(CYC[k])]
        for tag, first in (("ones", lambda n: [1] * n), ("uneven", lambda n: [1, n - 1])):
            out["%s+%s" % (k, tag)] = [respell(t, first) for t in CYC[k]]
    return out


def with_extra(t, x):
    """The step with x on both sides, also in its transition state."""
    return re.sub(r" (<->|->) ", lambda m: " + %s %s " % (x, m.group(1)), t) + " + " + x


def respell(t, split):
    out = []
    for w in t.split(" "):
        m = re.match(r"^(\d+)(\D.*)$", w)
        n = int(m.group(1)) if m else 1
        out.append(w if n < 2 else " + ".join((str(k) if k > 1 else "") + m.group(2) for k in split(n)))
    return " ".join(out)


SPECT = spectators()
CYC.update(SPECT)


def names(tier):
    return [k for k in sorted(CYC) if not k.startswith("poly") or int(k[4:]) in POLY[tier]]


def order_cap(tier):
    return 120 if tier == "thorough" else 24


def variants(name, tier):
    steps = CYC[name]
    n = len(steps)
    perms = list(itertools.permutations(range(n)))
    cap = order_cap(tier) if name not in SPECT else 2 if tier == "quick" else 24
    if len(perms) > cap:
        perms = perms[:: len(perms) // cap]
    for p in perms:
        for mask in range(2 ** n):
            yield [(ref.rx(steps[i]).rev() if mask >> i & 1 else ref.rx(steps[i])) for i in p]


def bounds(tier):
    return dict(cycles=len(names(tier)), orders="all up to %d" % order_cap(tier), directions="all subsets reversed")


def cases(tier):
    return [dict(name=k, tier=tier, part=i) for k in names(tier) for i in range(4)]


def nullspace(rows):
    """all rational x with x*rows = 0; rows = per step list; returns basis"""
    n = len(rows)
    m = len(rows[0]) if rows else 0
    A = [[Fraction(rows[i][j]) for i in range(n)] for j in range(m)]   # m equations, n unknowns
    piv, r = [], 0
    for col in range(n):
        k = next((i for i in range(r, m) if A[i][col] != 0), None)
        if k is None:
            continue
        A[r], A[k] = A[k], A[r]
        A[r] = [x / A[r][col] for x in A[r]]
        for i in range(m):
            if i != r and A[i][col] != 0:
                A[i] = [x - A[i][col] * y for x, y in zip(A[i], A[r])]
        piv.append(col)
        r += 1
    basis = []
    for fcol in [c for c in range(n) if c not in piv]:
        v = [Fraction(0)] * n
        v[fcol] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -A[i][fcol]
        basis.append(v)
    return basis


def overall(mech):
    inter = mech.site + mech.ads
    basis = nullspace([[mech.net(r, s) for s in inter] for r in mech.rxns])
    assert len(basis) == 1, "catalogue entry is not a single cycle: %r %r" % (mech.texts(), basis)
    v = basis[0]
    tot = {g: sum(x * mech.net(r, g) for x, r in zip(v, mech.rxns)) for g in mech.gas + mech.liq}
    d = 1
    for x in tot.values():
        d = d * x.denominator // gcd(d, x.denominator)
    tot = {k: int(x * d) for k, x in tot.items()}
    g = 0
    for x in tot.values():
        g = gcd(g, x)
    tot = {k: x // g for k, x in tot.items() if x}
    signs = set(x > 0 for x in v if x)
    if signs == {False}:
        tot = {k: -x for k, x in tot.items()}
    return tot, len(signs) == 1


def parse(eq):
    left, right = eq.split("->")
    d, seen = {}, []
    for side, sg in ((left, -1), (right, 1)):
        for t in side.split("+"):
            t = ref.f(t.strip())
            seen.append(t.name())
            d[t.name()] = d.get(t.name(), 0) + sg * t.n
    assert len(seen) == len(set(seen)), "a species is listed twice"
    return d


def run_case(c, rec):
    for idx, rs in enumerate(variants(c["name"], c["tier"])):
        if idx % 4 != c["part"]:
            continue
        mech = ref.Mech(rs)
        rec.state(tuple(mech.texts()))
        want, fixed = overall(mech)
        m = build.mkm(mech, solver=None, get_data=False)
        rec.step()
        eq = m.parser.get_total_rxn_equation()
        try:
            got = parse(eq)
        except Exception as e:
            rec.fail("unreadable", "%r: overall equation %r (%s)" % (mech.texts(), eq, e))
            continue
        ok = got == want or (not fixed and got == {k: -v for k, v in want.items()})
        rec.check(ok, "overall", "%r: overall equation %r, expected %r" % (mech.texts(), eq, want))
        rec.trace()
        rec.outcome(eq)
        rec.sample(dict(mechanism=mech.texts(), overall=eq))
