"""Small fitting problems with known answers, and the reference likelihood."""
import contextlib
import io
import json
import os
import time

import numpy as np
from astropy import units as u

from .core import logu, sig
from .refs import data as D


def silent(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def gen_problem(rng, ntab=None, npt=None, uls=None, forms=None, neg=0.1):
    fam = rng.choice([["flux", "differential flux"], ["power", "differential power"]])
    t = [D.gen_table(rng, i, fam, npt=npt, uls=uls) for i in range(ntab or rng.randint(1, 3))]
    mk = rng.choice(fam)
    if neg and rng.random() < neg:
        D.subtract(rng, rng.choice(t))
    return {
        "t": t, "mkind": mk, "munit": rng.choice(D.UNITS[mk]),
        "form": rng.choice(forms or FORMS), "data_sed": rng.choice([None, None, True, False]),
        "shape": round(rng.uniform(-0.6, 0.6), 3), "sd": sig(logu(rng, 0.05, 1)),
        "prior": rng.choice([None, "flat", "box", "normal", "logu"]),
        "ts": rng.randrange(1 << 30), "rs": rng.randrange(1 << 30),
    }


FORMS = ["bare", "tuple1", "tuple", "list", "scalars", "ndmix", "samelen", "pair"]


def distinct(pr):
    e = [x for s in pr["t"] for x in s["e"]]
    return len(set(e)) == len(e)


class Failure(Exception):
    """An exception of the user"""


EXC = {e.__name__: e for e in (RuntimeError, ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError,
                               FloatingPointError, OverflowError, ArithmeticError, AssertionError, NotImplementedError,
                               np.linalg.LinAlgError, u.UnitsError, u.UnitConversionError, MemoryError, OSError,
                               StopIteration, Warning, Failure)}


class Model:
    """Callable model of two parameters with a known result. Picklable."""

    scale = 1.0
    exc = RuntimeError

    def __init__(self, pr, log=None, delay=0.0, fail=None):
        self.pr, self.logf, self.delay, self.fail = pr, log, delay, fail
        rows, kind = D.rows(pr["t"], pr["data_sed"])
        self.e, self.kind, self.flux = rows["energy"], kind, rows["flux"]
        self.rows = rows
        self.calls = []

    def values(self, pars, e):
        """Model in the reference unit of its own kind, at energies e [eV]"""
        lf = np.interp(np.log(e), np.log(self.e), np.log(np.abs(self.flux)))
        pr = self.pr
        v = self.scale * np.exp(lf) * pars[0] * (e / self.e[0]) ** (pr["shape"] * pars[1])
        v = v * (1 + 0.3 * np.sin(7 * np.log(e)))
        dd, dm = self.kind.startswith("diff"), pr["mkind"].startswith("diff")
        if dd and not dm:
            v = v * e**2
        elif dm and not dd:
            v = v / e**2
        return v

    def __call__(self, pars, data):
        e = data["energy"].to("eV").value
        if self.logf:
            # one atomic line per event, from whichever process runs it
            line = json.dumps(["begin", os.getpid(), time.monotonic_ns(), list(map(float, pars))])
            fd = os.open(self.logf, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, (line + "\n").encode())
            if self.delay:
                time.sleep(self.delay * (hash(tuple(map(float, pars))) % 1000) / 1000)
            line = json.dumps(["end", os.getpid(), time.monotonic_ns(), list(map(float, pars))])
            os.write(fd, (line + "\n").encode())
            os.close(fd)
        else:
            self.calls.append((float(pars[0]), float(pars[1])))
        if self.fail and self.fail(pars):
            raise self.exc("injected failure")
        m = (self.values(pars, e) * u.Unit(D.REF[self.pr["mkind"]])).to(self.pr["munit"])
        return wrap(self.pr["form"], m, pars)


def wrap(form, m, pars):
    x = np.array([1.0, 2.0, 3.0]) * u.TeV
    y = x.value**-2 * pars[0] / u.TeV
    if form == "bare":
        return m
    if form == "tuple1":
        return (m,)
    if form == "tuple":
        return m, (x, y), pars[0] * u.erg
    if form == "list":
        return [m, float(pars[0]) * 2, pars[1] * u.G]
    if form == "scalars":
        return m, pars[0] * 1e48 * u.erg, np.float64(pars[1]), u.Quantity(3.0)
    if form == "ndmix":
        return m, m * 2, np.float64(pars[0]), (x, y)
    if form == "samelen":
        return m, m * pars[1]
    if form == "pair":
        return m, (m.value[:2] * u.eV, m[:2])
    raise KeyError(form)


class Prior:
    def __init__(self, kind):
        self.kind = kind

    def __call__(self, pars):
        import naima

        return {
            "flat": lambda: 0.0,
            "box": lambda: naima.uniform_prior(pars[0], 0.3, 2.2) + naima.uniform_prior(pars[1], -1, 1),
            "normal": lambda: naima.normal_prior(pars[1], 0.2, 0.7),
            "logu": lambda: naima.log_uniform_prior(pars[0], 0.2, 50.0),
        }[self.kind]()


def ref_prior(kind, p):
    if kind in (None, "flat"):
        return 0.0
    if kind == "box":
        return 0.0 if 0.3 <= p[0] <= 2.2 and -1 <= p[1] <= 1 else -np.inf
    if kind == "normal":
        return -0.5 * np.log(2 * np.pi * 0.49) - (p[1] - 0.2) ** 2 / 0.98
    if kind == "logu":
        return -np.log(p[0]) if 0.2 <= p[0] <= 50 else -np.inf
    raise KeyError(kind)


def ref_lnlike(model, pars):
    """Independent log-likelihood"""
    r = model.rows
    m = model.values(pars, r["energy"])
    dd, dm = model.kind.startswith("diff"), model.pr["mkind"].startswith("diff")
    if dm and not dd:
        m = m * r["energy"] ** 2
    elif dd and not dm:
        m = m / r["energy"] ** 2
    tot = 0.0
    for i in range(len(m)):
        f = r["flux"][i]
        if r["ul"][i]:
            if m[i] > f:
                tot += np.log(1 - r["cl"][i])
        else:
            s = r["flux_error_hi"][i] if m[i] > f else r["flux_error_lo"][i]
            tot -= 0.5 * ((m[i] - f) / s) ** 2
    return tot


def ref_lnprob(model, pars):
    p = ref_prior(model.pr["prior"], pars)
    return p if np.isinf(p) else p + ref_lnlike(model, pars)


def marginal(model, pars):
    """Is an upper limit violated only by rounding?"""
    r = model.rows
    m = model.values(pars, r["energy"])
    dd, dm = model.kind.startswith("diff"), model.pr["mkind"].startswith("diff")
    if dm and not dd:
        m = m * r["energy"] ** 2
    elif dd and not dm:
        m = m / r["energy"] ** 2
    return np.any(np.abs(m[r["ul"]] / r["flux"][r["ul"]] - 1) < 1e-9)


def tables(pr):
    t = [D.to_table(s, pr["ts"] + i) for i, s in enumerate(pr["t"])]
    return t[0] if len(t) == 1 else t


def same_blob(a, c, tol=1e-9):
    """Are two outputs of the model the same, units included?"""
    if isinstance(a, (tuple, list)) or isinstance(c, (tuple, list)):
        return (isinstance(a, (tuple, list)) and isinstance(c, (tuple, list)) and len(a) == len(c)
                and all(same_blob(x, y, tol) for x, y in zip(a, c)))
    ua, uc = getattr(a, "unit", u.dimensionless_unscaled), getattr(c, "unit", u.dimensionless_unscaled)
    if ua != uc:
        return False
    x, y = np.asarray(getattr(a, "value", a), float), np.asarray(getattr(c, "value", c), float)
    return x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=0, equal_nan=True)


def outputs(form, out):
    """What the record of one evaluation has to contain"""
    return [out] if form == "bare" else list(out)
