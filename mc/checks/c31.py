"""C31: coordinate groups."""
import copy
import itertools

PROPERTY = "C31"
TECHNIQUE = ("explicit-state exploration: breadth-first over all sequences of operations on a pool of groups up to a depth, each operation "
             "executed on the real objects (rebuilt along the path) and on a reference list of labelled positions")
RULE = "a state is the contents of all groups (and of the caller's own lists); a transition one operation"
ASSUMPTIONS = ["where two positions of one operand coincide with each other within tolerance, only the invariants are checked for a merger",
               "positions are lists of three floats, labels are strings"]
TOL = 1e-4
P = {"o": [0.0, 0.0, 0.0], "x": [1.0, 0.0, 0.0], "o+": [0.00009, -0.00009, 0.00009], "o!": [0.0, 0.0, 0.00011], "y": [0.0, 1.0, -0.5], "o!!": [0.0002, 0.0, 0.0],
     "-": [-1.0, 0.0, 0.0]}
L = ["V", "C", "O_s"]
VEC = {"0": [0.0, 0.0, 0.0], "x": [1.0, 0.0, 0.0], "-x": [-1.0, 0.0, 0.0], "i": [0, 1, 0], "t": [0.00009, 0.0, 0.0], "none": None}
BADP = [[0.0, 0.0], [0.0, 0.0, 0.0, 0.0], "abc", None, [0.0, None, 0.0], [0.0, "1", 0.0], {}, 1.0, []]
BADV = [[0.0, 1.0], [1.0], [], [0.0] * 4, [0.0, None, 0.0], [0.0, "a", 0.0], "abc", 3.0, "ab", [[0.0, 0.0, 0.0]]]
BADL = [3, ["C"], 1.5]


def bounds(tier):
    return dict(pairs="all pairs of groups of up to %d labelled positions out of %d x %d, merged both ways, moved, and merged again" % (2 if tier == "quick" else 3, len(P), len(L)),
                histories="all sequences of up to %d operations over two groups" % (4 if tier == "quick" else 5), tolerance=TOL)


def groups(n):
    items = [(p, l) for p in sorted(P) for l in L]
    out = [()]
    for k in range(1, n + 1):
        for c in itertools.product(items, repeat=k):
            if len({p for p, _ in c}) == k and (k < 2 or list(c) == sorted(c) or k == 2):
                out.append(c)
    return out


def cases(tier):
    out = [dict(k="bad")] + [dict(k="alias")]
    out += [dict(k="pair", g=[list(x) for x in g], n=2, order=2) for g in groups(2)]
    if tier != "quick":
        out += [dict(k="pair", g=[list(x) for x in g], n=1, order=3) for g in groups(3) if len(g) == 3]
        out += [dict(k="pair", g=[list(x) for x in g], n=3, order=1) for g in groups(1)]
    d = 4 if tier == "quick" else 5
    return out + [dict(k="hist", first=i, depth=d) for i in range(len(OPS))]


def near(a, b):
    return all(abs(x - y) <= TOL for x, y in zip(a, b))


def borderline(a, b):
    return any(abs(abs(x - y) - TOL) < 1e-9 for x, y in zip(a, b))


def merged(g1, g2):
    """The reference merger, or None where the statement leaves it open."""
    for g in (g1, g2):
        if any(near(a, b) for (a, _), (b, _) in itertools.combinations(g, 2)):
            return None
    if any(borderline(a, b) for a, _ in g1 for b, _ in g2):
        return None
    out = [[list(p), l] for p, l in g1]
    hit = set()
    for p, l in g2:
        match = [i for i, (q, _) in enumerate(g1) if near(p, q)]
        if len(match) > 1 or match and match[0] in hit:
            return None
        if match:
            hit.add(match[0])
            if g1[match[0]][1] == "V":
                out[match[0]][1] = l
        else:
            out.append([list(p), l])
    return out


def moved(g, v):
    v = v or [0.0, 0.0, 0.0]
    return [[[a + b for a, b in zip(p, v)], l] for p, l in g]


def contents(g):
    return [list(x) for x in zip([list(map(float, c)) for c in g.coordinates()], g.elements())]


def check_group(g, want, rec, what):
    n = len(g)
    rec.check(n == len(g.coordinates()) == len(g.elements()), "one label per position",
              lambda: "%s: %d positions, %d labels, length %d" % (what(), len(g.coordinates()), len(g.elements()), n))
    got = contents(g)
    ok = len(got) == len(want) and all(b == y and len(a) == 3 and all(abs(p - q) <= 1e-12 for p, q in zip(a, x)) for (a, b), (x, y) in zip(got, want))
    rec.check(ok, "contents", lambda: "%s: %r, expected %r" % (what(), got, want))


def check_merge(a, b, wa, wb, rec, what):
    m = a + b
    rec.step()
    want = merged(wa, wb)
    if want is None:
        rec.check(len(m) == len(m.coordinates()) == len(m.elements()), "one label per position", what)
        got = contents(m)
        rec.check(all(x == list(map(float, y[0])) for (x, _), y in zip(got, wa)) and len(wa) <= len(got) <= len(wa) + len(wb), "first group's positions", lambda: "%s: %r" % (what(), got))
        rec.count("mergers with coinciding positions")
        for (_, l), (_, w) in zip(got, wa):
            rec.check(l == w or w == "V", "label replaced", lambda: "%s: %r" % (what(), got))
        want = got
    else:
        check_group(m, want, rec, lambda: "merger of " + what())
    check_group(a, wa, rec, lambda: "first operand after the merger of " + what())
    check_group(b, wb, rec, lambda: "second operand after the merger of " + what())
    return m, want


# operations of the histories: (name, arguments)
OPS = ([("append", i, p, l) for i in (0, 1) for p in ("o", "x", "o+") for l in (None, "C")] + [("extend", i, ps, ls) for i in (0, 1) for ps, ls in ((("x", "y"), None), (("o", "y"), ("V", "O_s")), ((), None))]
       + [("move", i, v) for i in (0, 1) for v in ("x", "none", "t")] + [("merge", 0, 1), ("merge", 1, 0), ("merge", 0, 0)]
       + [("bad append", 0, i) for i in (0, 2)] + [("bad label", 1, 0), ("bad extend", 0, 0), ("bad extend", 1, 1), ("bad vector", 0, 0), ("bad vector", 1, 3)])


def apply(op, real, want, rec, what, held):
    """Executes an operation on the real groups and on the reference; the result of move and merge replaces the
    operand, and the original is checked then and after all later operations."""
    k = op[0]
    rec.step()
    if k == "append":
        _, i, p, l = op
        if l is None:
            real[i].append(list(P[p]))
        else:
            real[i].append(list(P[p]), l)
        want[i].append([list(P[p]), l or "V"])
    elif k == "extend":
        _, i, ps, ls = op
        args = [[list(P[p]) for p in ps]] + ([list(ls)] if ls else [])
        real[i].extend(*args)
        want[i] += [[list(P[p]), (ls[j] if ls else "V")] for j, p in enumerate(ps)]
    elif k == "move":
        _, i, v = op
        vec = copy.copy(VEC[v])
        new = real[i].move(vec) if v != "none" else real[i].move()
        check_group(real[i], want[i], rec, lambda: "original after moving; " + what())
        rec.check(vec == VEC[v], "vector changed", what)
        held.append((real[i], copy.deepcopy(want[i])))
        real[i], want[i] = new, moved(want[i], VEC[v])
    elif k == "merge":
        _, i, j = op
        held.append((real[i], copy.deepcopy(want[i])))
        real[i], want[i] = check_merge(real[i], real[j], want[i], want[j], rec, what)
    else:
        i = op[1]
        calls = {"bad append": lambda: real[i].append(copy.deepcopy(BADP[op[2]])), "bad label": lambda: real[i].append(list(P["y"]), BADL[op[2]]),
                 "bad extend": lambda: [lambda: real[i].extend([list(P["y"]), copy.deepcopy(BADP[1])]), lambda: real[i].extend([list(P["y"]), list(P["x"])], ["C", 3])][op[2]](),
                 "bad vector": lambda: real[i].move(copy.deepcopy(BADV[op[2]]))}
        try:
            calls[k]()
        except Exception:
            pass
        else:
            rec.fail("malformed accepted", "%s is not refused" % what())
    for j in (0, 1):
        check_group(real[j], want[j], rec, lambda: "group %d after %s" % (j, what()))
    for g, w in held:
        check_group(g, w, rec, lambda: "an earlier original after %s" % what())


def run_case(c, rec):
    from scaks.utilities.coordinate_utilities import CoordsGroup
    rec.sample({k: c[k] for k in c})

    def make(g):
        return CoordsGroup([list(P[p]) for p, _ in g], [l for _, l in g]), [[list(P[p]), l] for p, l in g]

    if c["k"] == "pair":
        g = [tuple(x) for x in c["g"]]
        for h in groups(c["n"]):
            a, wa = make(g)
            b, wb = make(h)
            what = lambda: "%r and %r" % (g, h)
            rec.state((tuple(g), h))
            m, wm = check_merge(a, b, wa, wb, rec, what)
            n, wn = check_merge(b, a, wb, wa, rec, what)
            if len(h) < 2:
                for v in sorted(VEC):
                    d = m.move(VEC[v])
                    check_group(d, moved(wm, VEC[v]), rec, lambda: "merger of %s moved by %r" % (what(), VEC[v]))
                    check_group(m, wm, rec, lambda: "merger of %s after moving it" % what())
                    # the results are groups of their own
                    check_merge(d, a, moved(wm, VEC[v]), wa, rec, lambda: "moved merger and first of " + what())
                    d.append([8.0, 8.0, 8.0], "O_s")
                    check_group(m, wm, rec, lambda: "merger of %s after appending to what moving it gave" % what())
            m.append([9.0, 9.0, 9.0], "C")
            check_group(a, wa, rec, lambda: "first of %s after appending to the merger" % what())
            check_group(b, wb, rec, lambda: "second of %s after appending to the merger" % what())
            check_group(n, wn, rec, lambda: "other merger of %s after appending to the first" % what())
    elif c["k"] == "hist":
        start = {"empty": ((), ()), "some": ((("o", "V"),), (("o+", "C"), ("x", "V")))}
        for s in sorted(start):
            stack = [(c["first"],)]
            while stack:
                path = stack.pop()
                real, want = map(list, zip(*[make(g) for g in start[s]]))
                held = []
                for n, i in enumerate(path):
                    apply(OPS[i], real, want, rec, lambda: "from %s: %r" % (start[s], [OPS[j] for j in path[:n + 1]]), held)
                rec.trace()
                rec.state((s, repr(want)))
                if len(path) < c["depth"]:
                    stack += [path + (i,) for i in range(len(OPS))]
    elif c["k"] == "bad":
        for g in groups(1):
            for bad in BADP:
                for call in (lambda x: x.append(copy.deepcopy(bad)), lambda x: x.append(copy.deepcopy(bad), "C"), lambda x: x.extend([copy.deepcopy(bad)]),
                             lambda x: x.extend([[5.0, 5.0, 5.0], copy.deepcopy(bad)]), lambda x: x.extend([[5.0, 5.0, 5.0], copy.deepcopy(bad), [6.0, 6.0, 6.0]], ["C", "C", "C"])):
                    refuse(call, make(g), rec, check_group, "position %r for %r" % (bad, g))
            for bad in BADV:
                if not g and type(bad) is list and len(bad) == 3:
                    continue                          # nothing to add the entries to
                refuse(lambda x: x.move(copy.deepcopy(bad)), make(g), rec, check_group, "vector %r for %r" % (bad, g))
            for bad in BADL:
                refuse(lambda x: x.append([5.0, 5.0, 5.0], bad), make(g), rec, check_group, "label %r for %r" % (bad, g))
                refuse(lambda x: x.extend([[5.0, 5.0, 5.0], [6.0, 6.0, 6.0]], ["C", bad]), make(g), rec, check_group, "label %r for %r" % (bad, g))
            for n in (0, 1, 3):
                refuse(lambda x: x.extend([[5.0, 5.0, 5.0], [6.0, 6.0, 6.0]], ["C"] * n), make(g), rec, check_group, "%d labels for 2 positions" % n)
        for n in range(4):
            for k in range(4):
                if n != k:
                    try:
                        CoordsGroup([[float(i), 0.0, 0.0] for i in range(n)], ["C"] * k)
                    except Exception:
                        rec.step()
                    else:
                        rec.fail("malformed accepted", "%d positions with %d labels" % (n, k))
        check_group(CoordsGroup(), [], rec, lambda: "an empty group")
        check_group(CoordsGroup().move([1.0, 2.0, 3.0]), [], rec, lambda: "an empty group, moved")
    else:
        # groups made from the same lists, and lists changed or used by their owner afterwards
        for g in groups(2):
            for shared_labels in (False, True):
                pos, lab = [list(P[p]) for p, _ in g], [l for _, l in g]
                w = [[list(P[p]), (l if shared_labels else "V")] for p, l in g]
                mk = lambda: CoordsGroup(pos, lab) if shared_labels else CoordsGroup(pos)
                a, b = mk(), mk()
                a.append([5.0, 5.0, 5.0], "C")
                rec.step(3)
                rec.state((g, shared_labels))
                check_group(a, w + [[[5.0, 5.0, 5.0], "C"]], rec, lambda: "a group after appending")
                check_group(b, w, rec, lambda: "a group made from the same lists %r" % (g,))
                rec.check(len(pos) == len(lab) == len(g), "caller's lists changed", lambda: "%r" % (g,))
                e1, e2 = CoordsGroup(), CoordsGroup()
                ext = [[7.0, 7.0, 7.0]]
                e1.extend(ext)
                e1.append([8.0, 8.0, 8.0])
                check_group(e2, [], rec, lambda: "an empty group after extending another")
                rec.check(ext == [[7.0, 7.0, 7.0]], "caller's lists changed", lambda: repr(ext))


def refuse(call, made, rec, check_group, what):
    x, w = made
    rec.step()
    try:
        call(x)
    except Exception:
        rec.count("refused")
    else:
        rec.fail("malformed accepted", "%s is not refused" % what)
    check_group(x, w, rec, lambda: "group after the refused %s" % what)
