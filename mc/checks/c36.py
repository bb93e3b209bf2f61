"""C36: set-up of the KMC lattice, run control and analyses."""
import itertools
import os
from .. import kmc

PROPERTY = "C36"
TECHNIQUE = ("bounded exhaustive exploration: all combinations of lattice parameters x present, absent, incomplete and malformed files, all combinations of run-control values, "
             "and all selections of analyses, on the real model over a recording engine; what the engine received compared with the configuration")
RULE = "a state is a configuration (parameters and files); a transition one object handed to the engine or one refusal"
ASSUMPTIONS = ["the occupation read from a file is validated by the engine", "an engine that takes its documented keyword arguments",
               "time_seed has no counterpart in the engine: it seeds from the clock if no seed is given"]
BASIS = [[[0.0, 0.0, 0.0]], [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.25], [0.25, 0.0, 0.0]]]
REPS = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 2, 1), (2, 3, 2), (1, 1, 2)]
CELLS = [[[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]], [[2.5, 0.0, 0.1], [1.25, 2.165, 0.0], [0.0, 0.0, 10.0]]]
DEF = dict(reaction=kmc.RXNS[0], coordinates_group=[[[0.0, 0.0, 0.0]]], elements_before=["V"], elements_after=["C"], basis_sites=[0])
CONTROL = dict(time_limit=[None, 12.5], nstep=[1, 77], trajectory_dump_interval=[1, 13], random_seed=[None, 7], random_generator=["MT", "MINSTD", "RANLUX24", "RANLUX48"], analysis_interval=[None, [5], 3],
               start_time=[None, 4.5], extra_trajectories=[None, (2, 9, 1)])
NAMES = dict(time_limit="time_limit", nstep="number_of_steps", trajectory_dump_interval="dump_interval", random_seed="seed", random_generator="rng_type",
             analysis_interval="analysis_interval", start_time="start_time", extra_trajectories="extra_traj")
DEFAULT = dict(time_limit=float("inf"), nstep=1, trajectory_dump_interval=1, random_seed=None, random_generator="MT", analysis_interval=None, start_time=0.0, extra_trajectories=None)
REDIST = dict(redistribution_interval=[None, 6], fast_species=[None, ["V"], ["C", "O_s"]], nsplits=[None, (2, 1, 1)], distributor_type=[None, "ProcessRandomDistributor"], empty_type=["V", "C"])
RDEFAULT = dict(redistribution_interval=1, fast_species=None, nsplits=(1, 1, 1), distributor_type="RandomDistributor", empty_type="V")
ANALYSES = ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"]


def bounds(tier):
    return dict(lattices=len(BASIS) * len(REPS) * len(CELLS) * 8, files="absent, without the variable, valid, one entry too many or too few, one bad entry at every position",
                control="all combinations of %s" % {k: len(v) for k, v in CONTROL.items()}, redistribution="all combinations of %s, on and off" % {k: len(v) for k, v in REDIST.items()},
                analyses="all sequences of up to %d different ones" % 4)


def cases(tier):
    out = [dict(k="lattice", basis=b, reps=r, cell=c) for b in range(len(BASIS)) for r in range(len(REPS)) for c in range(len(CELLS))]
    out += [dict(k="control", i=i, j=j, s=s) for i in range(2) for j in range(2) for s in range(2)]
    out += [dict(k="redist", on=on) for on in (True, False, None)]
    return out + [dict(k="run")]


def same(a, b):
    if isinstance(a, (list, tuple)) or hasattr(a, "tolist"):
        a = a.tolist() if hasattr(a, "tolist") else list(a)
        b = b.tolist() if hasattr(b, "tolist") else list(b) if isinstance(b, (list, tuple)) else [None]
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and type(a) is type(b)


def lattice_ok(rec, lat, reps, basis, cell, periodic, what):
    k = lat.kwargs
    u = k["unit_cell"].kwargs
    rec.check(same(k["repetitions"], reps), "repetitions", what)
    rec.check(same(k["periodic"], periodic), "periodic", what)
    rec.check(same(u["basis_points"], basis), "basis sites", what)
    rec.check(same(u["cell_vectors"], cell), "cell vectors", what)


def raises(f):
    try:
        f()
    except Exception:
        return True
    return False


def run_case(c, rec):
    {"lattice": lattice, "control": control, "redist": redist, "run": run}[c["k"]](c, rec)
    rec.sample(c)


def lattice(c, rec):
    reps, basis, cell = REPS[c["reps"]], BASIS[c["basis"]], CELLS[c["cell"]]
    n = reps[0] * reps[1] * reps[2] * len(basis)
    types = [["P", "Q"][(i * 7 // 3) % 2] for i in range(n)]
    occ = [["V", "C", "O_s", "O"][(i * 5 // 2) % 4] for i in range(n)]
    for periodic in itertools.product([True, False], repeat=3):
        def build(sites=None, conf=None, **kw):
            return kmc.model([DEF], sites=sites, conf=conf, repetitions=reps, basis_sites=basis, cell_vectors=cell, periodic=periodic, **kw)
        files = [(None, None), ("empty", None), ("valid", types), ("tuple", tuple(types)), ("other", ["Q"] * n)]
        for sk, sv in files:
            sname = "no_such.py" if sk is None else kmc.write("sites_in.py", **({"something": 1} if sv is None else {"site_types": sv}))
            for ok, ov in [(None, None), ("empty", None), ("valid", occ), ("other", ["C"] * n)]:
                oname = "no_such.py" if ok is None else kmc.write("conf_in.py", **({"empty_type": "C"} if ov is None else {"types": ov}))
                m = build(sname, oname)
                what = lambda: "repetitions %r, basis %r, periodic %r, site file %r, configuration file %r: %r, %r" % (
                    reps, basis, periodic, sv, ov, m.sitesmap.kwargs["types"], m.configuration.kwargs["types"])
                rec.state((reps, len(basis), c["cell"], periodic, sk, ok))
                rec.step(2)
                rec.trace()
                rec.check(same(list(m.sitesmap.kwargs["types"]), list(sv or ["P"] * n)), "site types", what)
                rec.check(same(list(m.configuration.kwargs["types"]), list(ov or ["V"] * n)), "occupation", what)
                rec.check(same(list(m.sitesmap.kwargs["possible_types"]), ["P", "Q"]), "possible site types", what)
                rec.check(same(list(m.configuration.kwargs["possible_types"]), ["O", "V", "O_s", "C"]), "possible species", what)
                for o in (m.sitesmap, m.configuration):
                    lattice_ok(rec, o.kwargs["lattice"], reps, basis, cell, periodic, what)
        if periodic != (True, True, False):
            continue
        # malformed site files
        bad = [types + ["P"], types[:-1], []] + [types[:i] + [x] + types[i + 1:] for i in range(n) for x in ("V", "", "p", None)]
        for b in bad:
            if len(b) == n and all(x in ("P", "Q") for x in b):
                continue
            kmc.write("sites_in.py", site_types=b)
            rec.step()
            rec.state((reps, len(basis), repr(b)))
            rec.check(raises(lambda: build("sites_in.py")), "malformed site types accepted", lambda: "repetitions %r, %d basis sites: %r" % (reps, len(basis), b))
        # the first site type and the empty type are the defaults
        for st in (["Q", "P"], ["P"], ["Z", "P", "Q"]):
            m = build(possible_site_types=st)
            rec.step()
            rec.check(list(m.sitesmap.kwargs["types"]) == [st[0]] * n, "default site types", lambda: "%r: %r" % (st, m.sitesmap.kwargs["types"]))
        for e in ("O_s", "C", "V"):
            m = build(empty_type=e)
            rec.step()
            rec.check(list(m.configuration.kwargs["types"]) == [e] * n, "default occupation", lambda: "empty type %r: %r" % (e, m.configuration.kwargs["types"]))
        for e in ("X", "v", ""):
            rec.step()
            rec.check(raises(lambda: build(empty_type=e)), "unknown empty type accepted", e)
        # files under their default names
        kmc.write("kmc_sites.py", site_types=types)
        kmc.write("kmc_configuration.py", types=occ)
        kmc.write("kmc_processes.py", processes=[DEF])
        kmc.write("rel_energy.py", Ga=kmc.GA, dG=kmc.DG)
        m = kmc.model([DEF], parse=False, repetitions=reps, basis_sites=basis, cell_vectors=cell, periodic=periodic)
        m.parser.parse_data()
        rec.step()
        rec.check(list(m.sitesmap.kwargs["types"]) == types and list(m.configuration.kwargs["types"]) == occ and m.process_dicts == [DEF], "default file names",
                  lambda: "%r %r %r" % (m.sitesmap.kwargs["types"], m.configuration.kwargs["types"], m.process_dicts))
        for f in ("kmc_sites.py", "kmc_configuration.py", "kmc_processes.py", "rel_energy.py"):
            os.remove(f)


def control(c, rec):
    fixed = {"time_limit": CONTROL["time_limit"][c["i"]], "nstep": CONTROL["nstep"][c["j"]], "random_seed": CONTROL["random_seed"][c["s"]]}
    free = [k for k in sorted(CONTROL) if k not in fixed]
    for vals in itertools.product(*[CONTROL[k] for k in free]):
        v = dict(fixed, **dict(zip(free, vals)))
        m = kmc.model([DEF], parse=False, **v)
        got = m.solver.get_control_parameters()
        rec.step()
        rec.state(repr(sorted(v.items())))
        rec.trace()
        want = {NAMES[k]: (v[k] if v[k] is not None else DEFAULT[k]) for k in v}
        want["do_redistribution"] = False
        judge_control(rec, got, want, v)


def judge_control(rec, got, want, v):
    k = dict(got.kwargs)
    rec.check(not got.args, "control parameters", lambda: "positional %r" % (got.args,))
    rec.check(sorted(k) == sorted(want), "control parameters", lambda: "%r: %r, expected %r" % (v, sorted(k), sorted(want)))
    for n in want:
        rec.check(same(k[n], want[n]), "control parameters", lambda: "%r: %s = %r, expected %r" % (v, n, k[n], want[n]))


def redist(c, rec):
    for vals in itertools.product(*[REDIST[k] for k in sorted(REDIST)]):
        v = dict(zip(sorted(REDIST), vals))
        for base in (dict(), dict(nstep=9, random_seed=3, start_time=1.5, analysis_interval=2)):
            opt = dict(v, do_redistribution=c["on"], **base)
            if not base:
                opt.update(nstep=None, random_seed=None, trajectory_dump_interval=None, random_generator=None)
            m = kmc.model([DEF], parse=False, **opt)
            got = m.solver.get_control_parameters()
            rec.step()
            rec.state(repr(sorted(opt.items(), key=repr)))
            rec.trace()
            full = dict(DEFAULT, **{k: x for k, x in dict(trajectory_dump_interval=10, random_generator="MT", **base).items()} if base else {})
            want = {NAMES[k]: full[k] for k in NAMES}
            want["do_redistribution"] = bool(c["on"])
            if c["on"]:
                for k in REDIST:
                    want["empty_element" if k == "empty_type" else k] = v[k] if v[k] is not None else RDEFAULT[k]
            judge_control(rec, got, want, opt)


def run(c, rec):
    from KMCLib import KMCLatticeModel
    orders = [p for n in range(5) for p in itertools.permutations(ANALYSES, n)]
    for names in orders:
        for traj in ("lattice", "xyz", None):
            for scripting in (True, False, None):
                m = kmc.model([DEF], analysis=list(names) if names else None, coverage_ratios=[1.0, 0.5])
                for f in os.listdir("."):
                    if f.startswith("auto_"):
                        os.remove(f)
                kw = {k: x for k, x in (("scripting", scripting), ("trajectory_type", traj)) if x is not None}
                m.run(**kw)
                lat, run_kw = KMCLatticeModel.runs.pop()
                rec.step()
                rec.state((names, traj, scripting))
                rec.trace()
                what = lambda: "analyses %r, %r: %r" % (names, kw, run_kw)
                a = run_kw["analysis"]
                rec.check([type(x).__name__ for x in a or []] == list(names), "analyses", what)
                t = traj or "lattice"
                rec.check(run_kw["trajectory_type"] == t and run_kw["trajectory_filename"] == "auto_%s_trajectory.py" % t, "trajectory", what)
                judge_control(rec, run_kw["control_parameters"], dict({NAMES[k]: DEFAULT[k] for k in NAMES}, number_of_steps=50, seed=13996, dump_interval=10, do_redistribution=False), kw)
                rec.check(lat.kwargs["configuration"] is m.configuration and lat.kwargs["sitesmap"] is m.sitesmap, "lattice of the run", what)
                rec.check(lat.kwargs["interactions"].kwargs["implicit_wildcards"] is True, "wildcards", what)
                scripts = [f for f in os.listdir(".") if f.startswith("auto_") and "kmc_model" in f]
                rec.check(bool(scripts) == (scripting is not False), "script", lambda: "%s: %r" % (what(), scripts))
                rec.check(not KMCLatticeModel.runs, "runs", what)
    for bad in ([kmc.RXNS[0]], ["coveragesanalysis"], ["CoveragesAnalysis", "X"]):
        rec.step()
        rec.check(raises(lambda: kmc.model([DEF], analysis=bad)), "unknown analysis accepted", repr(bad))
