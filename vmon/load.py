"""Import the naima of /repo's working tree, and nothing else."""
import logging
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VMON_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def load():
    """Import naima from the working tree, compiled from the current sources."""
    # dependencies first, so that only naima is compiled anew
    import corner  # noqa: F401
    import emcee  # noqa: F401
    import h5py  # noqa: F401
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import scipy.integrate  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.special  # noqa: F401
    import astropy.table  # noqa: F401
    import astropy.units  # noqa: F401

    if "naima" in sys.modules:
        raise RuntimeError("naima was imported before the loader")
    sys.path.insert(0, SRC)
    prefix = tempfile.mkdtemp(prefix="vmon_pyc_")
    old = sys.pycache_prefix
    sys.pycache_prefix = prefix  # never read a stale .pyc of the tree
    try:
        import naima
        import naima.models  # noqa: F401
        import naima.radiative  # noqa: F401
    finally:
        sys.pycache_prefix = old
        shutil.rmtree(prefix, ignore_errors=True)
    real = os.path.realpath(naima.__file__)
    if not real.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError("naima comes from {0}, not {1}".format(real, SRC))
    quiet()
    return naima


def quiet():
    warnings.simplefilter("ignore")
    from astropy import log

    log.setLevel("CRITICAL")
    log.disable_warnings_logging() if getattr(
        log, "warnings_logging_enabled", lambda: False
    )() else None
    logging.getLogger("naima").setLevel(logging.CRITICAL)
    for name in ("naima.radiative",):
        logging.getLogger(name).setLevel(logging.CRITICAL)


def in_repo(tb):
    """Does a traceback pass through the code under test?"""
    src = os.path.realpath(SRC) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(src):
            return "{0}:{1}".format(os.path.basename(fn), tb.tb_lineno)
        tb = tb.tb_next
    return None
