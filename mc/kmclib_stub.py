"""A recording stand-in for KMCLib (not installable here): the constructors keep
their arguments, and KMCLatticeModel.run plays a scripted history into the
analysis objects, in the order KMCLib documents (setup, registerStep*, finalize)."""
import numpy as np

__all__ = ["KMCUnitCell", "KMCLattice", "KMCConfiguration", "KMCSitesMap", "KMCProcess",
           "KMCInteractions", "KMCLatticeModel", "KMCControlParameters",
           "KMCAnalysisPlugin", "KMCLocalConfiguration"]


class _Rec(object):
    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs

    def _script(self, variable_name=None):
        """Python text that makes the object again, as the engine writes it."""
        name = variable_name or type(self).__name__.lower()
        text, given = [], []

        def expression(v, label):
            if isinstance(v, _Rec):
                text.append(v._script(label))
                return label
            if isinstance(v, (list, tuple)) and any(isinstance(x, _Rec) for x in v):
                return "[%s]" % ", ".join([expression(x, "%s_%d" % (label, i)) for i, x in enumerate(v)])
            return repr(v.tolist() if hasattr(v, "tolist") else v)
        for k in self.kwargs:
            given.append("%s=%s" % (k, expression(self.kwargs[k], name + "_" + k)))
        args = [expression(v, "%s_%d" % (name, i)) for i, v in enumerate(self.args)]
        return "".join(text) + "%s = %s(%s)\n\n" % (name, type(self).__name__, ", ".join(args + given))


class KMCUnitCell(_Rec):
    pass


class KMCLattice(_Rec):
    def nsite(self):
        r = self.kwargs["repetitions"]
        return r[0] * r[1] * r[2] * len(self.kwargs["unit_cell"].kwargs["basis_points"])


class KMCLocalConfiguration(object):
    def __init__(self, coordinates, types):
        self._c, self._t = np.array(coordinates), list(types)

    def coordinates(self):
        return self._c

    def types(self):
        return self._t


class KMCConfiguration(_Rec):
    def types(self):
        return list(self.kwargs["types"])

    def possibleTypes(self):
        return list(self.kwargs["possible_types"])


class KMCSitesMap(_Rec):
    def types(self):
        return list(self.kwargs["types"])


class KMCProcess(_Rec):
    def __init__(self, coordinates, elements_before, elements_after, basis_sites,
                 rate_constant, fast=False, redist=False, redist_species=None, **kw):
        _Rec.__init__(self, coordinates=[list(map(float, c)) for c in coordinates],
                      elements_before=list(elements_before),
                      elements_after=list(elements_after),
                      basis_sites=list(basis_sites), rate_constant=rate_constant,
                      fast=fast, redist=redist, redist_species=redist_species, **kw)

    def basisSites(self):
        return self.kwargs["basis_sites"]

    def elementsBefore(self):
        return self.kwargs["elements_before"]

    def elementsAfter(self):
        return self.kwargs["elements_after"]

    def rateConstant(self):
        return self.kwargs["rate_constant"]

    def fast(self):
        return self.kwargs["fast"]

    def localConfigurations(self):
        k = self.kwargs
        return [KMCLocalConfiguration(k["coordinates"], k["elements_before"]),
                KMCLocalConfiguration(k["coordinates"], k["elements_after"])]


class KMCInteractions(_Rec):
    pass


class KMCControlParameters(_Rec):
    pass


class KMCAnalysisPlugin(object):
    def __init__(self):
        pass

    def setup(self, step, time, configuration, interactions):
        pass

    def registerStep(self, step, time, configuration, interactions):
        pass

    def finalize(self):
        pass


class KMCLatticeModel(_Rec):
    runs = []
    history = None          # plays a history into the analyses of a run

    def run(self, **kwargs):
        KMCLatticeModel.runs.append((self, kwargs))
        if KMCLatticeModel.history is not None:
            for a in kwargs["analysis"] or []:
                KMCLatticeModel.history(a)
