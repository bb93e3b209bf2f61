"""C33: validation of inputs."""
import copy
import itertools

PROPERTY = "C33"
TECHNIQUE = ("bounded exhaustive enumeration of well-formed inputs and of all single and double defects injected at every position of them, "
             "on the real validators, compared with the documented form")
RULE = "a state is an input; a transition one validation"
ASSUMPTIONS = ["an error is any raised exception", "where the documentation leaves the form open (intervals and steps that are not positive, a process without coordinates, truth values as "
               "integers, definitions of species other than gases) nothing is judged"]

C = {"o": [0.0, 0.0, 0.0], "x": [1.0, 0.0, 0.0], "y": [0.0, -0.5, 0.0], "o~": [0.0, 2e-6, 0.0], "z": [0.0, 0.0, 1.0], "o1": [0.0, 0.0, -3e-6]}
SAME = {"o": [[0.0, 0.0, 0.0], [5e-7, -5e-7, 5e-7], [-0.0, 0.0, 9e-7]], "x": [[1.0, 0.0, 0.0], [1.0000005, 0.0, 0.0]], "y": [[0.0, -0.5, 0.0], [0.0, -0.4999995, 0.0]],
        "z": [[0.0, 0.0, 1.0]], "o~": [[0.0, 2.5e-6, 0.0]], "o1": [[0.0, 0.0, -3.2e-6]]}
NOT_SEQ = ["abc", None, {}, 1.0, {1}]


def bounds(tier):
    return dict(processes="1-%d coordinate sets of 1-%d positions, 0-2 basis sites, all single and double defects" % ((2, 3) if tier == "quick" else (3, 4)),
                intervals="all sequences of up to %d entries of %d" % (3 if tier == "quick" else 4, len(INTERVALS)), energies="up to 3 entries", species="up to 3 entries")


def bases(tier):
    """Well-formed process definitions."""
    sets = [["o"], ["o", "x"], ["x", "o~", "o"], ["o", "y", "z"]] + ([["o", "x", "y", "o1"]] if tier != "quick" else [])
    out = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for s in sets:
            for alt in range(2):
                for basis in ([], [0], [1, 2]) if tier != "quick" else ([0], [1, 2]):
                    for extra in ({}, dict(fast=True, redist=True, redist_species="C", description="text")):
                        for seq in (list, tuple):
                            k = len(s)
                            d = dict(reaction="CO_g + *_t -> CO_t", coordinates_group=seq([C[x] for x in (s if not (alt and i) else s[::-1])] for i in range(n)),
                                     elements_before=seq(["V", "C", "*", "O_s"][:k]), elements_after=seq(["C", "V", "*", "O_s"][:k]), basis_sites=seq(basis))
                            d.update(extra)
                            out.append(copy.deepcopy(d))
    return out


def put(seq, i, x):
    out = list(seq)
    out[i] = x
    return type(seq)(out)


def drop(seq, i):
    return type(seq)(list(seq)[:i] + list(seq)[i + 1:])


def grow(seq, i, x):
    return type(seq)(list(seq)[:i] + [x] + list(seq)[i:])


def defects(d):
    """All single defects of a process definition: (name, what has to be replaced by what), as functions of a definition."""
    out = []
    add = lambda name, key, f: out.append((name, key, f))
    for key in ("reaction", "coordinates_group", "elements_before", "elements_after", "basis_sites"):
        add("no " + key, key, None)
    for bad in (None, 3, ["CO_g + *_t -> CO_t"], b"x"):
        add("reaction %r" % (bad,), "reaction", lambda v, bad=bad: bad)
    for key in ("coordinates_group", "elements_before", "elements_after", "basis_sites"):
        for bad in NOT_SEQ:
            add("%s %r" % (key, bad), key, lambda v, bad=bad: copy.deepcopy(bad))
    for key in ("elements_before", "elements_after"):
        n = len(d[key])
        for i in range(n):
            for bad in (None, 1, ["C"], 1.5):
                add("%s[%d] = %r" % (key, i, bad), key, lambda v, i=i, bad=bad: put(v, i, bad))
            add("%s without %d" % (key, i), key, lambda v, i=i: drop(v, i))
        for i in range(n + 1):
            add("%s with one more at %d" % (key, i), key, lambda v, i=i: grow(v, i, "V"))
    for i in range(len(d["basis_sites"])):
        for bad in (None, "0", 0.0, [0]):
            add("basis_sites[%d] = %r" % (i, bad), "basis_sites", lambda v, i=i, bad=bad: put(v, i, bad))
    g = d["coordinates_group"]
    for i, coords in enumerate(g):
        for bad in NOT_SEQ:
            add("set %d is %r" % (i, bad), "coordinates_group", lambda v, i=i, bad=bad: put(v, i, copy.deepcopy(bad)))
        for j, coord in enumerate(coords):
            inner = lambda v, i, j, f: put(v, i, put(v[i], j, f(v[i][j])))
            for bad in NOT_SEQ:
                add("position %d of set %d is %r" % (j, i, bad), "coordinates_group", lambda v, i=i, j=j, bad=bad: inner(v, i, j, lambda c: copy.deepcopy(bad)))
            for k in range(3):
                for bad in (None, 1, "1.0", [1.0]):
                    add("entry %d of position %d of set %d is %r" % (k, j, i, bad), "coordinates_group", lambda v, i=i, j=j, k=k, bad=bad: inner(v, i, j, lambda c: put(c, k, bad)))
                add("position %d of set %d without entry %d" % (j, i, k), "coordinates_group", lambda v, i=i, j=j, k=k: inner(v, i, j, lambda c: drop(c, k)))
            add("position %d of set %d with 4 entries" % (j, i), "coordinates_group", lambda v, i=i, j=j: inner(v, i, j, lambda c: c + [0.0]))
            add("position %d of set %d is empty" % (j, i), "coordinates_group", lambda v, i=i, j=j: inner(v, i, j, lambda c: []))
            add("set %d without position %d" % (i, j), "coordinates_group", lambda v, i=i, j=j: put(v, i, drop(v[i], j)))
            name = [x for x in C if C[x] == coord]
            for twin in SAME[name[0]]:
                for l in range(len(coords)):
                    if l != j:
                        add("positions %d and %d of set %d are %r and %r" % (j, l, i, coord, twin), "coordinates_group", lambda v, i=i, l=l, twin=twin: put(v, i, put(v[i], l, list(twin))))
        add("set %d with one more position" % i, "coordinates_group", lambda v, i=i: put(v, i, v[i] + [[7.0, 0.0, 0.0]]))
    return out


def cases(tier):
    out = [dict(k="process", i=i, tier=tier) for i in range(len(bases(tier)))]
    out += [dict(k="interval", i=i, tier=tier) for i in range(len(INTERVALS))]
    out += [dict(k=k, tier=tier) for k in ("energies", "species", "sequence", "string", "positions")]
    return out


G, B = True, False
INTERVALS = [(1, G), (10, G), ((0, 10, 2), G), ([5, 20, 1], G), ((3, 13, 10), G), (10 ** 9, G), ([0, 1, 1], G),
             ("1", B), (1.0, B), (None, B), ((10, 0, 2), B), ([0, 10, 11], B), ((3, 13, 11), B), ((0, 10), B), ((0, 10, 2, 1), B), ((0, 10.0, 2), B), ([0, "10", 2], B), ((), B),
             ([None, 10, 2], B), ((0, 10, 2.0), B), ({}, B), ((4, 4, 1), B), ([[0], 10, 2], B), ((0.0, 10, 2), B)]


def run_case(c, rec):
    from scaks.utilities import check_utilities as cu
    rec.sample({k: c[k] for k in c})

    def judge(f, args, ok, what):
        kept = copy.deepcopy(args)
        rec.step()
        rec.trace()
        rec.state((f.__name__, repr(args)))
        try:
            got = f(*args)
        except Exception as e:
            rec.check(not ok, "well-formed refused", lambda: "%s%r refused: %r; %s" % (f.__name__, args, e, what))
            rec.count("refused")
            return
        rec.check(ok, "malformed accepted", lambda: "%s%r accepted; %s" % (f.__name__, kept, what))
        rec.check(got is args[0] or repr(got) == repr(kept[0]), "changed", lambda: "%s%r returns %r" % (f.__name__, kept, got))
        rec.check(repr(args) == repr(kept), "changed", lambda: "%s%r leaves %r" % (f.__name__, kept, args))
        rec.count("accepted")

    if c["k"] == "process":
        d = bases(c["tier"])[c["i"]]
        judge(cu.check_process_dict, (copy.deepcopy(d),), True, "well-formed")
        ds = defects(d)

        def inject(x, df):
            name, key, f = df
            x = dict(x)
            if f is None:
                x.pop(key)
            else:
                x[key] = f(x[key])
            return x
        for a in ds:
            judge(cu.check_process_dict, (copy.deepcopy(inject(d, a)),), False, a[0])
        for a, b in itertools.combinations(ds, 2):
            if a[1] == b[1] or {a[1], b[1]} <= {"coordinates_group", "elements_before", "elements_after"}:
                continue                     # two defects may make up for each other
            judge(cu.check_process_dict, (copy.deepcopy(inject(inject(d, a), b)),), False, "%s; %s" % (a[0], b[0]))
        return
    if c["k"] == "interval":
        first = INTERVALS[c["i"]]
        if type(first[0]) is int:
            judge(cu.check_analysis_interval, (first[0],), True, "single")
        elif type(first[0]) not in (list, tuple):
            judge(cu.check_analysis_interval, (copy.deepcopy(first[0]),), False, "single")
        for n in range(0, 3 if c["tier"] == "quick" else 4):
            for rest in itertools.product(INTERVALS, repeat=n):
                entries = (first,) + rest
                for seq in (list, tuple):
                    judge(cu.check_analysis_interval, (seq(copy.deepcopy([e for e, _ in entries])),), all(g for _, g in entries), "entries")
    elif c["k"] == "energies":
        import numpy as np
        keys = [("CO_g", G), ("*_s", G), ("", G), (1, B), (None, B), (("CO_g",), B)]
        vals = [(0.0, G), (-12.5, G), (np.float64(1.25), G), (1, B), ("0.0", B), (None, B), ([1.0], B), (1j, B)]
        for n in range(0, 4):
            for ks in itertools.permutations(keys, n):
                for vs in itertools.product(vals, repeat=n):
                    judge(cu.check_ref_energies, ({k: copy.deepcopy(v) for (k, _), (v, _) in zip(ks, vs)},), all(g for _, g in ks + vs), "entries")
        for bad in (None, [], [("CO_g", 1.0)], "CO_g", 1.0, ("CO_g", 1.0), {"CO_g"}):
            judge(cu.check_ref_energies, (bad,), False, "no dictionary")
    elif c["k"] == "species":
        gas = [({"pressure": 1.0}, G), ({"pressure": 0.0, "x": 1}, G), ({"mole_fraction": 1.0}, B), ({}, B), (None, B), ({"Pressure": 1.0}, B)]
        other = [({}, G), ({"site_name": "111", "type": "site", "total": 1.0}, G), ({"type": "adsorbate"}, G), ({"pressure": 1.0}, G)]
        names = [("CO_g", gas), ("O2_g", gas), ("H2O_l", other), ("*_s", other), ("CO_s", other), (1, None), (None, None)]
        for n in range(0, 4):
            for ns in itertools.permutations(names, n):
                opts = [o if o else [({"pressure": 1.0}, B)] for _, o in ns]
                for ds in itertools.product(*opts):
                    judge(cu.check_species_definitions, ({k: copy.deepcopy(v) for (k, _), (v, _) in zip(ns, ds)},), all(g for _, g in ds), "entries")
        for bad in (None, [], ["CO_g"], "CO_g", 1.0, ("CO_g",), {"CO_g"}):
            judge(cu.check_species_definitions, (bad,), False, "no dictionary")
    elif c["k"] == "sequence":
        vals = {int: [0, -5, 10 ** 20], float: [0.0, -1.5, float("inf")], str: ["", "a", "CO_g"], list: [[], [1], [[]]], dict: [{}, {"a": 1}], tuple: [(), (1,)]}
        for t in vals:
            pool = [(v, G) for v in vals[t]] + [(vals[u][0], B) for u in vals if u is not t] + [(None, B)]
            for n in range(0, 5):
                for es in itertools.product(pool, repeat=n):
                    for seq in (list, tuple):
                        judge(lambda s: cu.check_sequence(s, t), (seq(copy.deepcopy([e for e, _ in es])),), all(g for _, g in es), "entries of %s" % t.__name__)
            for bad in ("abc", None, {}, {1}, 1, 1.5, range(3), iter([])):
                if not hasattr(bad, "__next__"):
                    judge(lambda s: cu.check_sequence(s, t), (bad,), False, "no sequence")
    elif c["k"] == "string":
        words = ["V", "C", "O_s", "", "v", "VC"]
        for n in range(0, 5):
            for allowed in itertools.permutations(words, n):
                for seq in (list, tuple):
                    for w in words:
                        judge(lambda s: cu.check_string(s, seq(allowed)), (w,), w in allowed, "one of %r" % (allowed,))
                    for bad in (None, 1, ["V"], b"V", ("V",)):
                        judge(lambda s: cu.check_string(s, seq(allowed)), (bad,), False, "one of %r" % (allowed,))
        for bad in (None, 1, b"V"):
            judge(lambda s: cu.check_string(s, ["V", bad]), (bad,), False, "no string")
    else:
        pool = [x for x in sorted(C)] + ["same %s %d" % (x, i) for x in sorted(SAME) for i in range(len(SAME[x]))]
        val = lambda x: list(C[x]) if x in C else list(SAME[x.split()[1]][int(x.split()[2])])
        for n in range(0, 4 if c["tier"] == "quick" else 5):
            for ps in itertools.product(pool, repeat=n):
                vs = [val(p) for p in ps]
                gap = [max(abs(a - b) for a, b in zip(u, v)) for u, v in itertools.combinations(vs, 2)]
                if any(abs(x - 1e-6) < 1e-9 for x in gap):
                    continue
                judge(cu.check_process_coordinates, (vs,), all(x > 1e-6 for x in gap), "positions")
