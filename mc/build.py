"""Building real models from reference mechanisms."""
import os


def setup_dict(mech, totals=None, p=None, c=None, T=450.0, texts=None, **opt):
    """mech: ref.Mech.  Names without an entry get the default value."""
    sd = {}
    for g in mech.gas:
        sd[g] = {"pressure": (p or {}).get(g, 1.0)}
    for l in mech.liq:
        sd[l] = {"concentration": (c or {}).get(l, 1.0)}
    for s in mech.site:
        sd[s] = {"site_name": "111", "type": "site", "total": (totals or {}).get(s, 1.0)}
    d = dict(rxn_expressions=list(texts) if texts is not None else mech.texts(),
             species_definitions=sd, temperature=T,
             parser="RelativeEnergyParser", solver="SteadyStateSolver",
             corrector="ThermodynamicCorrector", plotter="EnergyProfilePlotter",
             decimal_precision=50, rootfinding="ConstrainedNewton",
             tolerance=1e-20, max_rootfinding_iterations=100)
    d.update(opt)
    return d


def clean(d):
    """None removes an option."""
    return {k: v for k, v in d.items() if v is not None}


def mkm(mech, energies=None, absolute=None, get_data=True, sym=False, **opt):
    """A real MicroKineticModel.  energies: (Ga list, dG list); absolute: dict."""
    from scaks.models.micro_kinetic_model import MicroKineticModel
    from . import env
    env.close_handlers()
    if absolute is not None:
        opt.setdefault("parser", "AbsoluteEnergyParser")
    m = MicroKineticModel(setup_dict=clean(setup_dict(mech, **opt)))
    if energies is not None:
        m.parser.parse_data(filename="no-such-file.py",
                            energy_data={"Ga": list(energies[0]), "dG": list(energies[1])})
    if absolute is not None:
        with open("abs_in.py", "w") as f:
            f.write("absolute_energies = %r\n" % (absolute,))
        m.parser.parse_data(filename="./abs_in.py")
        os.remove("abs_in.py")
    if get_data and opt.get("solver", "x") is not None:
        m.solver.get_data()
        if sym:
            m.solver.get_data_symbols()
    return m


def close(a, b, rel, abs_=0.0):
    import mpmath
    a, b = mpmath.mpf(a), mpmath.mpf(b)
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))
