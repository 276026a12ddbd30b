"""What a call may not change: the caller's objects and the state of the process."""
import gc
import os
import signal
import sys
import tempfile
import warnings

import numpy as np


def snap(x, depth=0):
    """Deep image of plain data; opaque for everything else."""
    from astropy import units as u
    from astropy.table import Table

    if depth > 8:
        return "..."
    if isinstance(x, u.Quantity):
        return ("Q", str(x.unit), snap(np.asarray(x.value), depth + 1))
    if isinstance(x, Table):
        return ("T", type(x).__name__, list(x.colnames), repr(x.meta),
                [(str(getattr(x[c], "unit", None)), snap(np.asarray(getattr(x[c], "value", x[c])), depth + 1))
                 for c in x.colnames])
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("O", x.shape, [snap(y, depth + 1) for y in x.ravel()])
        return ("A", x.dtype.str, x.shape, x.flags.writeable, x.tobytes())
    if isinstance(x, dict):
        return ("D", type(x).__name__, [(snap(k, depth + 1), snap(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y, depth + 1) for y in x])
    if isinstance(x, (set, frozenset)):
        return ("S", sorted(map(repr, x)))
    if isinstance(x, (bool, int, float, complex, str, bytes, np.generic)) or x is None:
        return (type(x).__name__, repr(x))
    return ("id", type(x).__name__)


def is_plain(x):
    from astropy import units as u

    if isinstance(x, (dict, list, set)):
        return len(x) > 0 and "id" not in str(snap(x))
    return isinstance(x, (np.ndarray, u.Quantity, tuple, int, float, str, bool))


def modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == "naima" or n.startswith("naima.")) and ".tests" not in n and m is not None]


def constants():
    """Public data of naima's modules and classes, and defaults of its functions"""
    out = {}

    def func(name, f):
        f = getattr(f, "__func__", f)
        seen = 0
        while f is not None and seen < 5:
            if hasattr(f, "__defaults__"):
                out[name + " defaults %d" % seen] = snap([f.__defaults__, f.__kwdefaults__])
            f = getattr(f, "__wrapped__", None)
            seen += 1

    for m in modules():
        for k, v in list(vars(m).items()):
            full = m.__name__ + "." + k
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("naima"):
                for a, w in list(vars(v).items()):
                    if callable(getattr(w, "__func__", w)) and not isinstance(w, type):
                        func(full + "." + a, w)
                    elif not a.startswith("_") and is_plain(w):
                        out[full + "." + a] = snap(w)
            elif callable(v) and getattr(v, "__module__", "").startswith("naima"):
                func(full, v)
            elif not k.startswith("_") and is_plain(v):
                out[full] = snap(v)
    return out


def fds():
    gc.collect()
    out = set()
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        # files of the run or of naima, not the fonts of matplotlib and the like
        if t.startswith(tempfile.gettempdir() + "/") or "/naima/" in t:
            out.add((f, t))
    return out


def state():
    import logging

    import matplotlib
    import matplotlib.pyplot as plt
    from astropy import log, units as u

    return {
        "matplotlib settings": {k: repr(v) for k, v in dict.items(matplotlib.rcParams)
                                if not k.startswith("backend")},
        "interactive mode": plt.isinteractive(),
        "warning filters": [repr(f) for f in warnings.filters],
        "numpy error settings": np.geterr(),
        "print options": repr(np.get_printoptions()),
        "log level": (log.level, logging.getLogger().level),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "signal handlers": [repr(signal.getsignal(s)) for s in
                            (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD)],
        "units": len(u.get_current_unit_registry().all_units),
        "search path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "umask": umask(),
    }


def umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def goes_on(a, b, blocks=4000):
    """Is the state b of a Mersenne twister reached from a by drawing numbers?"""
    rs = np.random.RandomState()
    rs.set_state(a)
    for _ in range(blocks):
        if np.array_equal(a["state"]["key"], b["state"]["key"]):
            return True
        rs.bytes(4 * 624)
        a = rs.get_state(legacy=False)
    return False


class Guard:
    """Watches calls: arguments, process state, open files, naima's constants."""

    def __init__(self, mon):
        self.mon = mon
        self.const = constants()

    def __call__(self, name, f, *a, **k):
        # silent through a filter that nobody else has, so that any filter
        # that stays behind differs
        with warnings.catch_warnings():
            warnings.resetwarnings()
            warnings.filterwarnings("ignore", message="[\\s\\S]*")
            return self.call(name, f, *a, **k)

    def call(self, name, f, *a, watch=(), may_fail=False, new_figures=None, **k):
        import matplotlib.pyplot as plt

        before, s0, f0 = snap([a, k, list(watch)]), state(), fds()
        r0 = np.random.get_state(legacy=False)
        figs = list(plt.get_fignums())
        failed, out = None, None
        try:
            out = f(*a, **k)
        except Exception as exc:
            if not may_fail:
                raise
            failed = exc
        mon = self.mon
        mon.cls("call", name + (" (fails)" if failed else ""))
        how = "%s%s" % (name, " that fails with %r" % failed if failed else "")
        after = snap([a, k, list(watch)])
        mon.check("arguments", before == after, "%s changes its arguments" % how,
                  where=diff(before, after))
        s1 = state()
        for key in s0:
            mon.check("process-state", s0[key] == s1[key], "%s changes: %s" % (how, key), where=diff(s0[key], s1[key]))
        mon.check("random-numbers", goes_on(r0, np.random.get_state(legacy=False)),
                  "%s starts the random numbers of the process anew" % how)
        c1 = constants()
        for key, v in self.const.items():
            if key in c1 and c1[key] != v:
                mon.check("constants", False, "%s changes %s" % (how, key), where=diff(v, c1[key]))
        mon.seen("constants")
        if failed is None:
            mon.check("files", fds() <= f0, "%s leaves files open" % how, files=sorted(fds() - f0))
        if new_figures is not None and failed is None:
            n = len(set(plt.get_fignums()) - set(figs))
            mon.check("figures", n == new_figures, "%s leaves %d figures open" % (how, n))
            mon.check("figures", set(figs) <= set(plt.get_fignums()), "%s closes figures" % how)
        if failed is not None:
            mon.seen("after-failure")
        return out


def diff(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %s / %s" % (path, str(a)[:100], str(b)[:100])
    if isinstance(a, dict):
        for k in a:
            if a[k] != b.get(k, "missing"):
                return diff(a[k], b.get(k, "missing"), path + "." + str(k))
        return path + ": " + str(set(b) - set(a))
    if isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "[%d]" % i)
        return path + ": length %d / %d" % (len(a), len(b))
    return "%s: %s / %s" % (path, str(a)[:100], str(b)[:100])
