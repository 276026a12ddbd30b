"""Monitor object: every oracle decision of a check goes through it."""
import hashlib
import json
import math

import numpy as np


class ObservationError(Exception):
    """What the code under test returned cannot be read as the promised thing."""


def canon(case):
    return hashlib.sha256(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def jsonable(x, depth=0):
    """Small JSON image of any value, for messages and samples."""
    if depth > 4:
        return str(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:20]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:20]]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else str(x)
    return str(x)[:300]


def val(q, unit=None, shape=None, what="value"):
    """Read `q` as a float array in `unit` (None: a plain/dimensionless one)."""
    from astropy import units as u

    try:
        if unit is not None:
            if not isinstance(q, u.Quantity):
                raise ObservationError(
                    "{0}: expected a Quantity in {1}, got {2}".format(
                        what, unit, type(q).__name__
                    )
                )
            a = np.asarray(q.to(unit).value, dtype=float)
        elif isinstance(q, u.Quantity):
            a = np.asarray(q.to("").value, dtype=float)
        else:
            a = np.asarray(q, dtype=float)
    except ObservationError:
        raise
    except Exception as exc:
        raise ObservationError(
            "{0}: cannot be read in unit {1}: {2!r} ({3})".format(what, unit, q, exc)
        )
    if shape is not None:
        if isinstance(shape, int):
            shape = (shape,)
        if a.shape != tuple(shape):
            # a scalar input may give a 0-d or a length-one result
            if tuple(shape) in ((), (1,)) and a.shape in ((), (1,)):
                a = a.reshape(shape)
            else:
                raise ObservationError(
                    "{0}: shape {1}, expected {2}".format(what, a.shape, shape)
                )
    return a


class Mon:
    MAXV = 12

    def __init__(self):
        self.rules = {}
        self.classes = {}
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.case = None
        self.case_obs = 0
        self.nontrivial = set()
        self.trivial = 0

    # -- bookkeeping
    def begin(self, case):
        self.case = case
        self.case_obs = 0
        self.case_nontrivial = True

    def end(self):
        if self.case_obs and self.case_nontrivial:
            self.nontrivial.add(canon(self.case))
        else:
            self.trivial += 1
        self.case = None

    def mark_trivial(self):
        self.case_nontrivial = False

    def cls(self, dim, key):
        """Record that the workload reached class `key` of dimension `dim`."""
        d = self.classes.setdefault(str(dim), {})
        key = str(key)
        if key in d or len(d) < 400:
            d[key] = d.get(key, 0) + 1

    def seen(self, rule, n=1):
        self.rules[rule] = self.rules.get(rule, 0) + int(n)
        self.case_obs += int(n)

    def violate(self, rule, msg, **detail):
        self.nviol += 1
        if len(self.violations) < self.MAXV:
            self.violations.append(
                dict(
                    rule=rule,
                    msg=str(msg)[:1500],
                    detail=jsonable(detail),
                    case=self.case,
                )
            )

    # -- oracles
    def check(self, rule, ok, msg="", **detail):
        self.seen(rule)
        if not bool(ok):
            self.violate(rule, msg, **detail)
            return False
        return True

    def close(self, rule, got, want, rtol=1e-6, atol=0.0, msg="", mask=None, n=None):
        """Element-wise agreement; NaN or inf only agree with themselves."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            if got.size == want.size == 1:
                got = got.reshape(())
                want = want.reshape(())
            else:
                self.seen(rule)
                self.violate(
                    rule,
                    "{0}: shape {1} instead of {2}".format(msg, got.shape, want.shape),
                )
                return False
        self.seen(rule, max(1, got.size) if n is None else n)
        with np.errstate(all="ignore"):
            ok = np.abs(got - want) <= atol + rtol * np.abs(want)
            same = (got == want) | (np.isnan(got) & np.isnan(want))
        bad = ~(ok | same)
        if mask is not None:
            bad &= np.asarray(mask)
        if np.any(bad):
            idx = np.argwhere(np.atleast_1d(bad))[:3].tolist()
            g = np.atleast_1d(got)[np.atleast_1d(bad)][:3]
            w = np.atleast_1d(want)[np.atleast_1d(bad)][:3]
            self.violate(
                rule,
                "{0}: {1} of {2} values differ; at {3}: got {4}, expected {5}".format(
                    msg, int(bad.sum()), got.size, idx, g.tolist(), w.tolist()
                ),
            )
            return False
        return True

    def raises(self, rule, exc, func, msg=""):
        """`func` must fail with one of `exc`; returns the exception or None."""
        self.seen(rule)
        try:
            r = func()
        except exc as e:
            return e
        except Exception as e:
            self.violate(
                rule,
                "{0}: raised {1}({2}) instead of {3}".format(
                    msg, type(e).__name__, str(e)[:200], exc
                ),
            )
            return e
        self.violate(rule, "{0}: accepted, returned {1!r}".format(msg, r)[:600])
        return None

    def sample(self, **kw):
        if len(self.samples) < 4:
            self.samples.append(jsonable(kw))

    def dump(self):
        return dict(
            rules=self.rules,
            classes=self.classes,
            violations=self.violations,
            nviol=self.nviol,
            samples=self.samples,
            nontrivial=sorted(self.nontrivial),
            trivial=self.trivial,
        )


def logu(rng, lo, hi):
    """log-uniform draw"""
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def sig(x, n=6):
    """Round to n significant digits, to keep cases readable."""
    return float("%.*g" % (n, x))
