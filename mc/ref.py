"""The reference model: reactions as data (never parsed from text), and the
mean-field kinetics they define, written as plainly as possible."""
import itertools
from math import gcd

KB_EV, H_EV, KB_J, P0 = 8.6173324e-5, 4.135667662e-15, 1.38064852e-23, 101325.0


class F(object):
    """One term of a state: stoich x species on nsite sites of type site.
    species: '*' for an empty site, or a tuple of fragments, each a tuple of
    (element, count); more than one fragment = transition state."""
    __slots__ = ("n", "sp", "nsite", "site")

    def __init__(self, n, sp, nsite, site):
        self.n, self.sp, self.nsite, self.site = n, sp, nsite, site

    def species(self):
        if self.sp == "*":
            return "*"
        return "-".join("".join(e + (str(c) if c != 1 else "") for e, c in fr) for fr in self.sp)

    def name(self):
        return "%s_%s%s" % (self.species(), self.nsite if self.nsite != 1 else "", self.site)

    def text(self):
        return (str(self.n) if self.n != 1 else "") + self.name()

    def kind(self):
        if self.site == "g":
            return "gas"
        if self.site == "l":
            return "liquid"
        if self.sp == "*":
            return "site"
        return "adsorbate"

    def elements(self):
        d = {}
        if self.sp != "*":
            for fr in self.sp:
                for e, c in fr:
                    d[e] = d.get(e, 0) + c * self.n
        return d

    def sites(self):
        return {self.site: self.nsite * self.n}

    def is_ts(self):
        return self.sp != "*" and len(self.sp) > 1

    def key(self):
        return (self.n, self.sp, self.nsite, self.site)


def frag(s):
    """'CO2' -> (('C',1),('O',2)); 'Cl2' -> (('Cl',2),)"""
    out, i = [], 0
    while i < len(s):
        j = i + 1
        while j < len(s) and s[j].islower():
            j += 1
        k = j
        while k < len(s) and s[k].isdigit():
            k += 1
        out.append((s[i:j], int(s[j:k]) if k > j else 1))
        i = k
    return tuple(out)


def sp(s):
    """'CO-O' -> species tuple, '*' -> '*'"""
    return "*" if s == "*" else tuple(frag(x) for x in s.split("-"))


def f(text):
    """Build a term from text for hand-written mechanisms ('2O_s', 'CO-O_2s')."""
    i = 0
    while text[i].isdigit():
        i += 1
    n = int(text[:i]) if i else 1
    head, tail = text[i:].rsplit("_", 1)
    j = 0
    while j < len(tail) and tail[j].isdigit():
        j += 1
    return F(n, sp(head), int(tail[:j]) if j else 1, tail[j:])


def state_elements(st):
    d = {}
    for t in st:
        for e, c in t.elements().items():
            d[e] = d.get(e, 0) + c
    return d


def state_sites(st):
    d = {}
    for t in st:
        if t.site in ("g", "l"):
            continue
        for s, c in t.sites().items():
            d[s] = d.get(s, 0) + c
    return d


class R(object):
    """A reaction: list of 2 or 3 states, each a list of F."""
    def __init__(self, *states):
        self.states = [list(s) for s in states]

    def text(self, sep=" + ", arrow=(" -> ", " <-> ")):
        s = [sep.join(t.text() for t in st) for st in self.states]
        if len(s) == 2:
            return s[0] + arrow[0] + s[1]
        return s[0] + arrow[1] + s[1] + arrow[0] + s[2]

    @property
    def IS(self):
        return self.states[0]

    @property
    def FS(self):
        return self.states[-1]

    def balanced(self):
        e = [state_elements(s) for s in self.states]
        t = [state_sites(s) for s in self.states]
        return all(x == e[0] for x in e) and all(x == t[0] for x in t)

    def rev(self):
        return R(*self.states[::-1])


def rx(text):
    """A reaction from '2O_s <-> O-O_2s -> O2_g + 2*_s' style text (hand-written
    catalogue entries only)."""
    if "<->" in text:
        a, b = text.split("<->")
        b, c = b.split("->") if b.count("->") == 1 else _split_ts(b)
        parts = [a, b, c]
    else:
        a, b = text.split(" -> ")
        parts = [a, b]
    return R(*[[f(t.strip()) for t in p.split(" + ")] for p in parts])


def _split_ts(b):
    i = b.rindex("->")
    return b[:i], b[i + 2:]


class Mech(object):
    def __init__(self, rxns):
        self.rxns = [rx(r) if isinstance(r, str) else r for r in rxns]
        ads, gas, liq, site, ts = set(), set(), set(), set(), set()
        for r in self.rxns:
            for st in r.states:
                for t in st:
                    k = t.kind()
                    if k == "gas":
                        gas.add(t.name())
                    elif k == "liquid":
                        liq.add(t.name())
                    else:
                        site.add("*_" + t.site)
                        if t.is_ts():
                            ts.add(t.name())
                        elif k == "adsorbate":
                            ads.add(t.name())
        self.ads, self.gas, self.liq = sorted(ads), sorted(gas), sorted(liq)
        self.site, self.ts = sorted(site), sorted(ts)
        self.info = {}
        for r in self.rxns:
            for st in r.states:
                for t in st:
                    self.info[t.name()] = t

    def texts(self):
        return [r.text() for r in self.rxns]

    def net(self, r, name):
        """produced minus consumed by one forward event"""
        return (sum(t.n for t in r.FS if t.name() == name) -
                sum(t.n for t in r.IS if t.name() == name))

    def free(self, ads_cvg, totals):
        """names -> coverage, with the free sites"""
        th = dict(zip(self.ads, ads_cvg))
        for s in self.site:
            th[s] = totals[s] - sum(th[a] for a in self.ads if "*_" + self.info[a].site == s)
        return th

    def rates(self, kf, kr, activity):
        """activity: name -> number; mass action"""
        rf, rr = [], []
        for i, r in enumerate(self.rxns):
            a = kf[i]
            for t in r.IS:
                a = a * activity[t.name()] ** t.n
            b = kr[i]
            for t in r.FS:
                b = b * activity[t.name()] ** t.n
            rf.append(a)
            rr.append(b)
        return rf, rr

    def dtheta(self, rf, rr):
        return [sum(self.net(r, a) * (rf[i] - rr[i]) for i, r in enumerate(self.rxns))
                for a in self.ads]

    def tof(self, rf, rr):
        return [sum(self.net(r, g) * (rf[i] - rr[i]) for i, r in enumerate(self.rxns))
                for g in self.gas + self.liq]


# ----------------------------------------------------------------------
# Enumerating balanced elementary steps over a species alphabet
# ----------------------------------------------------------------------

def all_states(terms, max_terms, max_n):
    """All multisets of distinct terms with coefficients 1..max_n."""
    for k in range(1, max_terms + 1):
        for combo in itertools.combinations(terms, k):
            for ns in itertools.product(range(1, max_n + 1), repeat=k):
                yield tuple((n, t) for n, t in zip(ns, combo))


def balanced_steps(terms, max_terms=2, max_n=2, reduce=True, disjoint=False):
    """All balanced, non-trivial steps IS -> FS over a term alphabet.
    terms: list of names like 'CO_g', '*_s', 'O2_2s'."""
    by = {}
    for st in all_states(terms, max_terms, max_n):
        fs = [f((str(n) if n > 1 else "") + t) for n, t in st]
        e = tuple(sorted(state_elements(fs).items()))
        s = tuple(sorted(state_sites(fs).items()))
        by.setdefault((e, s), []).append(st)
    out = []
    for key in sorted(by):
        g = by[key]
        for a in g:
            for b in g:
                if a == b:
                    continue
                if disjoint and {t for _, t in a} & {t for _, t in b}:
                    continue
                if reduce:
                    d = 0
                    for n, _ in a + b:
                        d = gcd(d, n)
                    if d > 1:
                        continue
                # a coverage-changing net effect is required
                na, nb = dict((t, n) for n, t in a), dict((t, n) for n, t in b)
                if na == nb:
                    continue
                out.append(R([f((str(n) if n > 1 else "") + t) for n, t in a],
                             [f((str(n) if n > 1 else "") + t) for n, t in b]))
    return out
