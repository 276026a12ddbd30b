"""C10: the particle distribution functions follow their documented formulae."""
import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random parameters of the five distribution functions, with amplitudes
in several differential units or none, all energies in random units. The values
are compared with the documented formulae evaluated in logarithmic space: as
arrays (also unsorted, with the break and reference energies among them), scalars,
tables and dictionaries, in other units, after changes of each parameter on the
live object, and against the limits that connect the functions (no break, no
cutoff, no curvature). Non-trivial: at least one value is not zero."""
REQUIRED = ["formula", "expression", "after-change", "limit", "at-break", "unit", "signed"]
AUNITS = ["1/eV", "1/TeV", "1/erg", "1/(s cm2 TeV)", "1/(s eV)", "erg/(s cm2)", None, "1/(cm3 eV)"]


def gen(rng, tier):
    n = 900 if tier == "quick" else 60000
    out = []
    for i in range(n):
        kind = sorted(b.PARTICLES)[i % 5]
        s = b.gen_particle(rng, kind, lo=1e3, hi=1e15)
        un = rng.choice(AUNITS)
        a = sig(logu(rng, 1e-20, 1e40)) * rng.choice([1, 1, 1, -1])
        s["amplitude"] = a if un is None else [a, un]
        for k in ("alpha", "alpha_1", "alpha_2"):
            if k in s:
                s[k] = rng.choice([round(rng.uniform(-1.5, 4.5), 3), rng.randint(-1, 4)])
        if kind == "LogParabola":
            s["beta"] = rng.choice([round(rng.uniform(-0.1, 0.6), 4), 0, 1])
        if "beta" in s and kind != "LogParabola" and rng.random() < 0.2:
            s.pop("beta")
        un2 = rng.choice(b.EUNITS)
        f = u.eV.to(un2)
        n2 = rng.choice([1, 2, 6, 20])
        e = [[sig(logu(rng, 1e2, 1e17) * f, 8) for _ in range(n2)], un2]
        out.append({"spec": s, "E": e, "rs": rng.randrange(1 << 30)})
    return out


def run(case, mon):
    spec = case["spec"]
    rng = np.random.RandomState(case["rs"])
    mon.cls("type", spec["type"])
    m = b.particle(spec)
    E = b.Q(case["E"])
    e = P.ev(E)
    aun = spec["amplitude"][1] if isinstance(spec["amplitude"], list) else None
    mon.cls("amplitude unit", aun)
    if aun is not None and aun.startswith("erg/(s"):
        mon.cls("unit kind", "integrated")
    want = P.particle(spec, e)
    if not want.any():
        mon.mark_trivial()
    # exponents of magnitude up to ~ 1e3 lose digits in the power functions
    tol = dict(rtol=3e-11, atol=1e-290)

    def get(en, shape, obj=None, unit=aun, what="value"):
        r = (obj or m)(en)
        if unit is None and isinstance(r, u.Quantity):
            mon.check("unit", r.unit.is_equivalent(""), "a unit appeared: %s" % r.unit)
        elif unit is not None:
            mon.check("unit", isinstance(r, u.Quantity) and r.unit == u.Unit(unit),
                      "values in %s instead of the unit of the amplitude, %s"
                      % (getattr(r, "unit", None), unit))
        return val(r, unit, shape, what)

    mon.close("formula", get(E, E.shape), want, msg=spec["type"], **tol)
    # the sign and magnitude follow the amplitude
    a = spec["amplitude"][0] if aun else spec["amplitude"]
    mon.check("signed", np.all(want * np.sign(a) >= 0), "reference sign")
    # expressions of the same energies
    i = rng.randint(len(e))
    mon.close("expression", get(E[i], ()), want[i], msg="scalar energy", **tol)
    un = rng.choice(b.EUNITS)
    mon.close("expression", get(E.to(un), E.shape), want, rtol=1e-9, atol=1e-290,
              msg="energies in " + un)
    mon.close("expression", get({"energy": E}, E.shape), want, msg="dict", **tol)
    mon.close("expression", get(QTable([E], names=["energy"]), E.shape), want, msg="QTable", **tol)
    mon.close("expression", get(Table([E], names=["energy"]), E.shape), want, msg="Table", **tol)
    mon.close("expression", get(E.reshape(-1, 1), (len(e), 1)), want.reshape(-1, 1),
              msg="two dimensions", **tol)
    # special energies
    if "e_break" in spec:
        eb = b.Q(spec["e_break"])
        x = u.Quantity([eb * 0.999999, eb, eb * 1.000001, b.Q(spec["e_0"])])
        mon.close("at-break", get(x, 4), P.particle(spec, P.ev(x)), rtol=1e-9, atol=1e-290,
                  msg="around the break")
    e0 = b.Q(spec["e_0"])
    mon.close("formula", get(e0, ()), P.particle(spec, P.ev(e0)), msg="reference energy", **tol)
    # parameters changed on the live object
    cur = dict(spec)
    for _ in range(3):
        k = rng.choice([x for x in b.PARTICLES[spec["type"]]])
        if k not in cur:
            cur[k] = 1.0
        old = cur[k]
        f = float(rng.choice([1 + 1e-9, 1.01, 1.5, 0.5]))
        cur[k] = [old[0] * f, old[1]] if isinstance(old, list) else old * f
        setattr(m, k, b.Q(cur[k]))
        mon.cls("changed", k)
        mon.close("after-change", get(E, E.shape), P.particle(cur, e),
                  msg="after setting %s" % k, **tol)
    # families: without break, cutoff, curvature
    import naima.models as nm

    A, E0, al = b.Q(spec["amplitude"]), e0, float(rng.uniform(0, 4))
    pl = val(nm.PowerLaw(A, E0, al)(E), aun)
    fam = [nm.LogParabola(A, E0, al, 0.0), nm.BrokenPowerLaw(A, E0, 1 * u.TeV, al, al),
           nm.ExponentialCutoffPowerLaw(A, E0, al, 1e60 * u.eV)]
    for o in fam:
        mon.close("limit", val(o(E), aun), pl, rtol=1e-9, atol=1e-290, msg=type(o).__name__)
    eb, ec = 30 * u.GeV, 3 * u.TeV
    beta = float(rng.choice([1, 0.5, 2]))
    x = val(nm.ExponentialCutoffBrokenPowerLaw(A, E0, eb, al, al + 1, ec, beta)(E), aun)
    y = val(nm.BrokenPowerLaw(A, E0, eb, al, al + 1)(E), aun)
    z = val(nm.ExponentialCutoffPowerLaw(A, E0, al, ec, beta)(E), aun)
    with np.errstate(all="ignore"):
        mon.close("limit", x, y * np.where(pl == 0, 0, z / pl), rtol=1e-8, atol=1e-280,
                  msg="cutoff times break", mask=(np.abs(z) > 1e-250) & (np.abs(pl) > 1e-250))
    mon.sample(spec=spec, first=[float(e[0]), float(want[0])])
