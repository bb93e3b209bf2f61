"""C42: scripts written for KMC runs."""
import itertools
import os
from .. import kmc
from . import c26

PROPERTY = "C42"
TECHNIQUE = ("bounded exhaustive exploration: all lists of processes up to a length over the events of a set of definitions, all lattices and occupations of a set, and all runs, "
             "scripted by the real solver over a recording engine; every script is executed and the objects it makes are compared with those that were scripted")
RULE = "a state is (objects scripted, file name); a transition one script"
ASSUMPTIONS = ["the text for a single object comes from the engine, which writes it under the name it is asked to use", "the engine is the recording stand-in"]
LATS = [((1, 1, 1), 1), ((2, 1, 1), 2), ((1, 3, 2), 1), ((2, 2, 1), 3)]
CLASSES = {"configuration": "KMCConfiguration", "interactions": "KMCInteractions", "lattice_model": "KMCLatticeModel"}
NAMES = [None, "x.py", "kmc_model.py"]


def bounds(tier):
    return dict(definitions=len(c26.small()), process_lists="all lists of up to %d of the events of each definition and the whole event lists of all pairs of definitions (up to %d events)" % (n_list(tier), 24),
                lattices=LATS, names=NAMES, runs="all definitions x lattices x scripting on, off, by default, as first and as second process")


def n_list(tier):
    return 3 if tier == "quick" else 5


def cases(tier):
    s = c26.small()
    return ([dict(k="list", d=[x], n=n_list(tier)) for x in s] + [dict(k="list", d=[a, b], n=1) for a in s for b in s] + [dict(k="lattice", l=i) for i in range(len(LATS))]
            + [dict(k="run", d=[a, b]) for a in s for b in s] + [dict(k="empty")])


def plain(v):
    """Contents of a recorded object, comparable."""
    if hasattr(v, "kwargs"):
        return (type(v).__name__, [plain(x) for x in v.args], sorted((k, plain(x)) for k, x in v.kwargs.items()))
    if hasattr(v, "tolist"):
        v = v.tolist()
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v


def script(call, obj, name, rec, what):
    """The text the solver writes, after checking what became of the file."""
    for f in os.listdir("."):
        if f.startswith("auto_"):
            os.remove(f)
    for again in range(2):
        text = call(obj, name) if name and again else (call(obj, script_name=name) if name else call(obj))
        rec.step()
        made = [f for f in os.listdir(".") if f.startswith("auto_")]
        rec.check(made == (["auto_" + name] if name else []), "script file", lambda: "%s: files %r" % (what(), made))
        if name:
            got = open("auto_" + name).read()
            rec.check(got == text, "contents of the script file", lambda: "%s: the file holds\n%s\nreturned was\n%s" % (what(), got, text))
    return execute(text, rec, what)


def execute(text, rec, what):
    rec.check(text.startswith("#") and "scaks" in text.split("\n")[0], "file header", lambda: "%s: %r" % (what(), text[:80]))
    env = {}
    try:
        exec(text, env)
    except Exception as e:
        rec.fail("script does not execute", "%s: %r\n%s" % (what(), e, text))
        return None
    return env


def run_case(c, rec):
    import KMCLib
    rec.sample(dict(c))
    if c["k"] == "empty":
        m = kmc.model([c26.definition(*c26.small()[0])])
        env = script(m.solver.script_processes, [], "p.py", rec, lambda: "no processes")
        rec.check(env is not None and env.get("processes") == [], "processes", "no processes")
        rec.state("empty")
        return
    if c["k"] == "list":
        m = kmc.model([c26.definition(*x) for x in c["d"]], basis_sites=[[0.0] * 3, [0.5, 0.0, 0.0], [0.0, 0.5, 0.0]])
        all_p = m.solver.processes
        lists = [list(x) for n in range(1, c["n"] + 1) for x in itertools.product(all_p, repeat=n)] if c["n"] > 1 else []
        for ps in lists + [list(all_p), list(all_p)[::-1], list(all_p) * 2]:
            for name in NAMES if len(ps) < 3 or len(ps) > 5 else [None]:
                what = lambda: "processes %r, name %r" % ([plain(p) for p in ps], name)
                env = script(m.solver.script_processes, ps, name, rec, what)
                rec.state((repr(c["d"]), name, tuple(all_p.index(p) for p in ps)))
                rec.trace()
                if env is not None:
                    got = env.get("processes")
                    rec.check(type(got) is list and plain(got) == plain(ps), "processes", lambda: "%s: made %r" % (what(), plain(got)))
        return
    if c["k"] == "lattice":
        reps, nb = LATS[c["l"]]
        n = reps[0] * reps[1] * reps[2] * nb
        for v, periodic in itertools.product(range(4), itertools.product([True, False], repeat=3)):
            occ = [["V", "C", "O_s", "O"][(i * 5 // 2 + v) % 4] for i in range(n)]
            m = kmc.model([c26.definition(*c26.small()[v])], conf=kmc.write("conf_in.py", types=occ), repetitions=reps, basis_sites=[[i / 7.0, 0.0, 0.0] for i in range(nb)], periodic=periodic)
            inter = KMCLib.KMCInteractions(processes=m.solver.processes, implicit_wildcards=True)
            lat = KMCLib.KMCLatticeModel(configuration=m.configuration, sitesmap=m.sitesmap, interactions=inter)
            for kind, obj in (("configuration", m.configuration), ("interactions", inter), ("lattice_model", lat)):
                for name in NAMES:
                    what = lambda: "%s %r, name %r" % (kind, plain(obj), name)
                    rec.state((c["l"], v, periodic, kind, name))
                    rec.trace()
                    judge(script(getattr(m.solver, "script_" + kind), obj, name, rec, what), kind, obj, rec, what)
        return
    for l, scripting, rank in itertools.product(range(2), (True, False, None), (0, 1)):
        reps, nb = LATS[l]

        def go():
            m = kmc.model([c26.definition(*x) for x in c["d"]], repetitions=reps, basis_sites=[[i / 7.0, 0.0, 0.0] for i in range(nb)])
            for f in os.listdir("."):
                if f.startswith("auto_"):
                    os.remove(f)
            m.run(**({} if scripting is None else dict(scripting=scripting)))
            return KMCLib.KMCLatticeModel.runs.pop()[0]
        what = lambda: "run of %r, scripting %r, process %d" % (c["d"], scripting, rank)
        if rank:
            if not os.path.isdir("log"):
                os.mkdir("log")
            with kmc.Slave():
                lat = go()
        else:
            lat = go()
        rec.step()
        rec.trace()
        rec.state((repr(c["d"]), l, scripting, rank))
        made = [f for f in os.listdir(".") if f.startswith("auto_")]
        want = ["auto_kmc_model.py"] if scripting is not False and rank == 0 else []
        rec.check(made == want, "script of a run", lambda: "%s: files %r" % (what(), made))
        if made == want != []:
            judge(execute(open(want[0]).read(), rec, what), "lattice_model", lat, rec, what)


def judge(env, kind, obj, rec, what):
    if env is None:
        return
    import KMCLib
    got = [v for v in env.values() if type(v) is getattr(KMCLib, CLASSES[kind])]
    rec.check(len(got) == 1 and plain(got[0]) == plain(obj), kind, lambda: "%s: made %r" % (what(), [plain(x) for x in got]))
