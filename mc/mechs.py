"""Mechanism families shared by the kinetics checks."""
import itertools
from . import ref

ALPHA = {
    "mono": ["CO_g", "*_s", "CO_s"],
    "diss": ["O2_g", "*_s", "O_s", "O2_s"],
    "bident": ["O2_g", "*_s", "O_s", "O2_2s"],
    "twosite": ["CO_g", "*_s", "*_t", "CO_s", "CO_t"],
    "liquid": ["H2_l", "*_s", "H_s", "H2_s"],
    "ox": ["CO_g", "O2_g", "CO2_g", "*_s", "CO_s", "O_s"],
    "gasgas": ["NO_g", "N2_g", "O_s", "N_s", "*_s"],
    "isomer": ["HCN_g", "*_s", "HCN_s", "HNC_s"],
}

# hand-written shapes that the enumeration does not reach (three terms, both-sided
# species, multi-digit powers, transition states, several site types)
EXTRA = [
    "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s",
    "O2_g + 2*_s <-> O-O_2s -> 2O_s",
    "CO_g + O_s + *_s -> CO2_s + *_s",
    "CO_s + *_s + O_t -> CO2_s + *_s + *_t",
    "12H_s -> 6H2_g + 12*_s",
    "CO_g + CO_s + *_s -> 2CO_s",
    "CO_s + CO_s -> 2CO_g + 2*_s",
    "CO_g + *_s + *_s -> CO_s + *_s",
    "CO_s + *_t <-> CO_t + *_s -> CO_t + *_s",
    "OH_s + H_t <-> H-OH_s + *_t -> H2O_s + *_t",
    "H2O_l + *_s -> H2O_s",
    "H2O_l + O_s + *_s <-> HO-HO_2s -> 2OH_s",
    "CO2_l -> CO2_g",
    "3H2_l + 6*_s -> 6H_s",
    "NO_s + *_s <-> N-O_2s -> N_s + O_s",
    "2NO_s <-> N-NO2_2s -> N2_g + O2_s + *_s",
    "O_s + O_s <-> O-O_2s -> O2_g + *_s + *_s",
    "CO_g + *_S -> CO_S",
    "CO_g + 2*_top -> CO_2top",
    "CO_S + *_s -> CO_s + *_S",
    "O2_g + *_s + *_ss -> O_s + O_ss",
    "C2H4_g + *_Top -> C2H4_Top",
    "CO_brg + *_tl -> CO_tl + *_brg",
    "Cl_s + CCl3_t <-> Cl-CCl3_t + *_s -> CCl4_g + *_s + *_t",
]


def steps(name, max_terms=2, max_n=2, **kw):
    return ref.balanced_steps(ALPHA[name], max_terms, max_n, **kw)


def texts(rs):
    return [r.text() for r in rs]


def singles(families, max_terms=2, max_n=2):
    out = []
    for f in families:
        out += texts(steps(f, max_terms, max_n))
    seen, res = set(), []
    for t in out + EXTRA:
        if t not in seen and ref.rx(t).balanced():
            seen.add(t)
            res.append(t)
    return res


# catalytic cycles for steady-state properties: name -> (texts, overall coefficient of every step)
CYCLES = {
    "ads": ["CO_g + *_s -> CO_s"],
    "iso": ["HCN_g + *_s -> HCN_s", "HCN_s -> HNC_s", "HNC_s -> HNC_g + *_s"],
    "coox": ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"],
    "er": ["O2_g + 2*_s -> 2O_s", "CO_g + O_s <-> CO-O_s -> CO2_g + *_s"],
    "twosite": ["CO_g + *_s -> CO_s", "O2_g + 2*_t -> 2O_t", "CO_s + O_t <-> CO-O_s + *_t -> CO2_g + *_s + *_t"],
    "liq": ["H2O_l + *_s -> H2O_s", "H2O_s -> H2O_g + *_s"],
    "hop": ["CO_g + *_s -> CO_s", "CO_s + *_t -> CO_t + *_s", "CO_t -> CO_g + *_t"],
}
