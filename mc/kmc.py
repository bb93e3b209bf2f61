"""Real KMC models over the recording stand-in for the engine."""
import logging

RXNS = ["CO_g + *_t -> CO_t", "O2_g + 2*_b -> 2O_b", "CO_b + O_b <-> CO-O_2b -> CO2_g + 2*_b", "CO_b + *_t <-> CO_t + *_b -> CO_b + *_t"]
GA = [0.0, 0.35, 0.61, 0.5]
DG = [-0.4, 0.2, -0.7, 0.0]
P = {"CO_g": 0.01, "O2_g": 0.2, "CO2_g": 3.0}


def setup_dict(**opt):
    d = dict(rxn_expressions=list(RXNS), species_definitions={g: {"pressure": p} for g, p in P.items()}, temperature=450.0,
             parser="KMCParser", solver="KMCSolver", corrector="ThermodynamicCorrector",
             cell_vectors=[[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]], basis_sites=[[0.0, 0.0, 0.0], [0.5, 0.0, 0.0]], unitcell_area=9.0e-20, active_ratio=0.5,
             repetitions=(2, 1, 1), periodic=(True, True, False), possible_element_types=["O", "V", "O_s", "C"], empty_type="V", possible_site_types=["P", "Q"],
             nstep=50, random_seed=13996, random_generator="MT", trajectory_dump_interval=10)
    d["species_definitions"].update({"*_t": {"site_name": "top", "type": "site", "total": 0.5}, "*_b": {"site_name": "bridge", "type": "site", "total": 0.5}})
    d.update(opt)
    return {k: v for k, v in d.items() if v is not None}


def write(name, **variables):
    with open(name, "w") as f:
        for k in variables:
            f.write("%s = %r\n" % (k, variables[k]))
    return name


def model(definitions, parse=True, conf=None, sites=None, **opt):
    from scaks.models.kmc_model import KMCModel
    from . import env
    env.close_handlers()
    m = KMCModel(setup_dict=setup_dict(**opt), logger_level=logging.ERROR)
    if parse:
        write("rel_in.py", Ga=GA, dG=DG)
        write("proc_in.py", processes=definitions)
        m.parser.parse_data(energy_file="rel_in.py", processes_file="proc_in.py", configuration_file=conf or "absent_conf.py", sitesmap_file=sites or "absent_sites.py")
    return m


class Interactions(object):
    def __init__(self, picked=None, available=None, rates=None):
        self.p, self.a, self.r = picked, available, rates

    def pickedIndex(self):
        return self.p

    def processAvailableSites(self):
        return list(self.a)

    def processRates(self):
        return list(self.r)


class Configuration(object):
    def __init__(self, types):
        self.t = types

    def types(self):
        return list(self.t)


def play(plugin, records, done=True, between=None):
    """records: (step, time, configuration, interactions); the first one is the state the run starts from."""
    for i, r in enumerate(records):
        if between:
            between(i)
        (plugin.setup if i == 0 else plugin.registerStep)(*r)
    if between:
        between(len(records))
    if done:
        plugin.finalize()
        if between:
            between(len(records) + 1)


class Slave(object):
    """What another process of a parallel run sees."""
    def __enter__(self):
        import sys
        M = sys.modules["mpi4py.MPI"]
        self.old = M.COMM_WORLD

        class Comm(type(self.old)):
            def Get_rank(self):
                return 1

            def Get_size(self):
                return 2
        M.COMM_WORLD = Comm()

    def __exit__(self, *a):
        import sys
        sys.modules["mpi4py.MPI"].COMM_WORLD = self.old


def parallel(make, records, rec, read, what):
    """Another process of the same run executes its own copy of the analysis before the k-th action of this one, for every k; or one action of
    the other before each action of this one: the file must not depend on it."""
    import os
    play(make(), records)
    want = read()
    for k in range(len(records) + 2):
        def other(i):
            if i == k:
                with Slave():
                    play(make(), records)
        play(make(), records, between=other)
        got = read()
        rec.step()
        rec.check(got == want, "another process", lambda: "%s: the file depends on when another process of the run executes (before action %d):\n%r\nexpected\n%r" % (what(), k, got, want))
    with Slave():
        p = make()

    def lockstep(i):
        with Slave():
            if i == 0:
                p.setup(*records[0])
            elif i < len(records):
                p.registerStep(*records[i])
            elif i == len(records):
                p.finalize()
    play(make(), records, between=lockstep)
    rec.step()
    rec.check(read() == want, "another process", lambda: "%s: the file depends on another process of the run" % what())


def execute(name, rec, what):
    env = {}
    text = open(name).read()
    try:
        exec(text, env)
    except BaseException as e:
        rec.fail("file does not execute", "%s: %r\n%s" % (what(), e, text))
    env.pop("__builtins__", None)
    return env
