"""C30: the two coverage counters."""
import ctypes
import itertools
import os
import subprocess
from fractions import Fraction
from ..core import REPO, InfraError

PROPERTY = "C30"
TECHNIQUE = ("bounded exhaustive enumeration of lattice occupations x ordered lists of species x site weights, executed on the interpreted "
             "counter and on the C++ counter compiled from the tree; compared with each other and with exact counts")
RULE = "a state is (occupation, species asked for, weights); a transition one count"
ASSUMPTIONS = ["a lattice consists of whole unit cells", "every species is asked for at most once"]
SPECIES = ["A", "A_s", "V"]
SHIM = r'''
#include <vector>
#include <string>
#include "%s/c++/src/kmc_functions.cpp"
extern "C" int count(const char **types, int n, const char **possible, int m, const double *ratios, int k, double *out)
{
    std::vector<double> r = collect_coverages(std::vector<std::string>(types, types + n), std::vector<std::string>(possible, possible + m),
                                              std::vector<double>(ratios, ratios + k));
    for (size_t i = 0; i < r.size() && (int)i < m; ++i) out[i] = r[i];
    return (int)r.size();
}
'''


def weights(n, tier):
    w = [1.0, 0.25, 0.0, 0.1] if n <= 2 or tier != "quick" and n <= 3 else [1.0, 0.25, 0.1] if n <= 3 else [1.0, 0.3]
    return list(itertools.product(w, repeat=n))


def bounds(tier):
    return dict(sites=6 if tier == "quick" else 8, species=len(SPECIES), lists="all ordered selections of up to 3 of 4", cells="every division of the sites into cells", weights="1, 0.25, 0, 0.1 (all assignments up to 3 sites; 1 and 0.3 beyond)")


def cases(tier):
    top = 6 if tier == "quick" else 8
    return [dict(sites=n, basis=b, first=f, tier=tier) for n in range(1, top + 1) for b in range(1, n + 1) if n % b == 0 and (n <= 6 or b in (1, 2, 4)) for f in SPECIES]


def worker_init():
    global LIB
    import scaks.solvers.kmc_plugins.kmc_functions
    with open("shim.cpp", "w") as f:
        f.write(SHIM % REPO)
    r = subprocess.run(["g++", "-O2", "-std=c++11", "-shared", "-fPIC", "-I" + os.path.join(REPO, "c++", "include"), "shim.cpp", "-o", "shim.so"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("the extension does not compile:\n" + r.stderr[-3000:])
    LIB = ctypes.CDLL(os.path.abspath("shim.so"))


def run_case(c, rec):
    from scaks.solvers.kmc_plugins.kmc_functions import collect_coverages
    lists = [p for k in range(0, 4) for p in itertools.permutations(SPECIES + ["Q"], k) if k < 3 or "Q" not in p or p[0] == "Q"]
    cl = [(list(p), (ctypes.c_char_p * max(len(p), 1))(*[x.encode() for x in p]), (ctypes.c_double * (len(p) + 1))()) for p in lists]
    ws = [(list(w), (ctypes.c_double * len(w))(*w), [Fraction(x) for x in w]) for w in weights(c["basis"], c["tier"])]
    n, b = c["sites"], c["basis"]
    cells = n // b
    for rest in itertools.product(SPECIES, repeat=n - 1):
        types = [c["first"]] + list(rest)
        ct = (ctypes.c_char_p * n)(*[t.encode() for t in types])
        for w, cw, fw in ws:
            exact = {s: float(sum((fw[i % b] for i, t in enumerate(types) if t == s), Fraction(0)) / cells) for s in SPECIES + ["Q"]}
            rec.state((tuple(types), tuple(w)))
            for p, cp, out in cl:
                t0, p0, w0 = list(types), list(p), list(w)
                py = collect_coverages(t0, p0, w0)
                k = LIB.count(ct, n, cp, len(p), cw, b, out)
                rec.step(2)
                rec.trace(2)
                what = lambda: "sites %r, asked for %r, weights %r" % (types, p, w)
                rec.check(k == len(p) == len(py), "length", lambda: "%s: %d interpreted, %d compiled" % (what(), len(py), k))
                rec.check((t0, p0, w0) == (types, p, w), "arguments changed", what)
                for i, s in enumerate(p):
                    rec.check(abs(py[i] - out[i]) <= 1e-12, "disagreement", lambda: "%s: %s %r interpreted, %r compiled" % (what(), s, py[i], out[i]))
                    rec.check(abs(py[i] - exact[s]) <= 1e-12, "count", lambda: "%s: %s covers %r, expected %r" % (what(), s, py[i], exact[s]))
            rec.outcome(tuple(sorted(exact.items())))
    rec.sample(c)
