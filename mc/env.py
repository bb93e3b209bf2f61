"""Closing the system: scratch working directories, a one-process stand-in for
the MPI communicator, a recording stand-in for the (not installed) KMCLib, and
silence on the loggers.  The code under test is imported from /repo."""
import logging
import os
import shutil
import sys
import types

from .core import REPO

ROOT = None
_n = 0
_cur = None


class Comm(object):
    """The communicator of a run with one process."""
    def bcast(self, data, root=0):
        return data

    def barrier(self):
        return None
    Barrier = barrier

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1
    rank = property(lambda self: self.Get_rank())
    size = property(lambda self: self.Get_size())

    def allgather(self, x):
        return [x]

    def gather(self, x, root=0):
        return [x]


def install_fake_mpi(comm=None):
    m = types.ModuleType("mpi4py")
    M = types.ModuleType("mpi4py.MPI")
    M.COMM_WORLD = comm or Comm()
    m.MPI = M
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = M
    return M


def install_comm(comm):
    sys.modules["mpi4py.MPI"].COMM_WORLD = comm


def setup(root):
    global ROOT
    ROOT = os.path.abspath(root)
    os.chdir(ROOT)
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    install_fake_mpi()
    from . import kmclib_stub
    sys.modules["KMCLib"] = kmclib_stub
    logging.disable(logging.CRITICAL)
    # the code prints banners when optional parts are missing
    sys.stdout.flush()
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull
    import warnings
    warnings.simplefilter("ignore")


def close_handlers():
    for name, lg in list(logging.root.manager.loggerDict.items()):
        if isinstance(lg, logging.Logger):
            for h in list(lg.handlers):
                lg.removeHandler(h)
                try:
                    if isinstance(h, logging.FileHandler):
                        h.close()
                except Exception:
                    pass


def enter_case():
    fresh()


def leave_case():
    global _cur
    close_handlers()
    os.chdir(ROOT)
    if _cur and os.path.isdir(_cur):
        shutil.rmtree(_cur, ignore_errors=True)
    _cur = None


def fresh():
    """A new empty scratch working directory."""
    global _n, _cur
    close_handlers()
    old = _cur
    _n += 1
    _cur = os.path.join(ROOT, "c%d" % _n)
    os.mkdir(_cur)
    os.chdir(_cur)
    if old and os.path.isdir(old):
        shutil.rmtree(old, ignore_errors=True)
    return _cur
