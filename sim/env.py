"""Loads the code under test from /repo's working tree, with the seams installed."""
import importlib
import logging
import os
import random
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}

MODULES = [
    "yaocptool.estimation.extended_kalman_filter",
    "yaocptool.estimation.pce_kalman_filter",
    "yaocptool.estimation.unscented_kalman_filter",
    "yaocptool.methods.network.bipartite_jacobi_admm",
    "yaocptool.methods.network.distributedaugmetedlagrangian",
    "yaocptool.mpc.mpc",
    "yaocptool.mpc.plant",
    "yaocptool.util.serializer",
    "yaocptool.util.timeout",
]

_loaded = False


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    from sim import fake_erised

    sys.modules["erised"] = fake_erised.module()
    logging.disable(logging.CRITICAL)
    from yaocptool import config

    assert os.path.realpath(config.__file__).startswith(os.path.realpath(REPO)), config
    # the HSL solvers (ma27) are not installed here; mumps is shipped with casadi
    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.sb"] = "yes"
    import casadi  # noqa
    import numpy  # noqa

    # warm up; a property that needs a module that cannot be imported fails in its runs
    for name in MODULES:
        try:
            importlib.import_module(name)
        except Exception:
            pass


def reseed(seed):
    """The generators that the code under test uses (module level ones)."""
    import numpy

    random.seed(seed)
    numpy.random.seed(seed % (2**32))
