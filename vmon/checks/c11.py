"""C11: tabulated models interpolate their table."""
import math

import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val

RULE = """Random tables (four to eighty points, several orders of magnitude, in
random order, energies and values in random units or without unit). Oracles: the
values at the nodes; zero outside; exact reproduction of functions that are
polynomials up to third degree in logarithmic space, sampled between nodes; no
dependence on the units or order of the energies nor on later edits of the
caller's arrays; proportionality to the amplitude, set before or after; the
spectrum of a radiative model with the tabulated population against the analytic
one. Non-trivial: every case."""
REQUIRED = ["node", "outside", "log-space", "expression", "zeros", "amplitude", "own-copy", "radiative"]
VUNITS = ["1/eV", "1/TeV", "1/(cm2 s TeV)", "erg/(cm2 s)", None]


def gen(rng, tier):
    n = 500 if tier == "quick" else 30000
    out = []
    for i in range(n):
        un = rng.choice(b.EUNITS)
        f = u.eV.to(un)
        npt = rng.choice([4, 5, 8, 20, 80])
        e0 = logu(rng, 1e2, 1e12)
        step = logu(rng, 1.05, 2 if npt > 20 else 3)
        e, x = [], e0
        for _ in range(npt):
            e.append(sig(x * f, 9))
            x *= step ** rng.uniform(0.5, 1.5)
        deg = rng.choice([1, 2, 3])
        c = [rng.uniform(-30, 30)] + [rng.uniform(-2, 2) / (k + 1) for k in range(deg)]
        # within +-60 decades over the table
        h = max(1.0, math.log10(x / e0) / 2 + 0.5)
        c = [c[0]] + [min(10.0, 20 / h**k) * cc / 2 for k, cc in enumerate(c[1:], 1)]
        out.append({"E": [e, un], "deg": deg, "c": [round(x, 5) for x in c],
                    "vu": rng.choice(VUNITS), "noise": rng.random() < 0.4,
                    "amp": sig(logu(rng, 1e-6, 1e6)), "rs": rng.randrange(1 << 30)})
    return out


def run(case, mon):
    from naima.models import TableModel

    rng = np.random.RandomState(case["rs"])
    E = b.Q(case["E"])
    le = np.log10(E.to("eV").value)
    mid = le.mean()

    def f(x):
        return 10 ** np.polynomial.polynomial.polyval(x - mid, case["c"])

    noise = case["noise"]
    v = f(le) * (10 ** rng.uniform(-0.5, 0.5, len(le)) if noise else 1)
    vu = case["vu"]
    V = v if vu is None else v * u.Unit(vu)
    order = rng.permutation(len(le))
    mon.cls("points", len(le))
    mon.cls("unit", vu)
    Ein, Vin = E[order].copy(), V[order].copy()
    m = TableModel(Ein, Vin)

    def get(en, shape, obj=None, what="value"):
        return val((obj or m)(en), vu, shape, what)

    tol = dict(rtol=1e-7)
    mon.close("node", get(E, E.shape), v, msg="at the energies of the table", **tol)
    i = rng.randint(len(le))
    mon.close("node", get(E[i], ()), v[i], msg="scalar at a node", **tol)
    d = le[-1] - le[0]
    x = 10 ** rng.uniform(le[0] + 1e-6 * d, le[-1] - 1e-6 * d, 12) * u.eV
    got = get(x, x.shape)
    if not noise:
        mon.close("log-space", got, f(np.log10(x.value)), rtol=1e-6, msg="between nodes")
    mon.check("log-space", np.all(np.isfinite(got)) and np.all(got > 0),
              "interpolation of positive values is not positive", got=got)
    out = u.Quantity([10 ** (le[0] - 1e-6) * u.eV, 10 ** (le[0] - 3) * u.eV,
                      10 ** (le[-1] + 1e-6) * u.eV, 10 ** (le[-1] + 4) * u.eV])
    mon.close("outside", get(out, 4), np.zeros(4), msg="outside the table")
    for o in out[:3:2]:
        mon.close("outside", get(o, ()), 0.0, msg="scalar outside the table")
    un = rng.choice(b.EUNITS)
    mon.close("expression", get(x.to(un), x.shape), got, rtol=1e-6, msg="energies in " + un)
    mon.close("expression", get({"energy": x}, x.shape), got, rtol=1e-12, msg="dict")
    p = rng.permutation(len(x))
    mon.close("expression", get(x[p], x.shape), got[p], rtol=1e-12, msg="order")
    m2 = TableModel(E.to(un), V, amplitude=case["amp"])
    mon.close("amplitude", get(x, x.shape, m2), got * case["amp"], rtol=1e-6, msg="amplitude")
    m2.amplitude = 3 * case["amp"]
    mon.close("amplitude", get(x, x.shape, m2), got * case["amp"] * 3, rtol=1e-6,
              msg="changed amplitude")
    for a in (0, -2.5, np.float32(0.5), np.array(4.0), 3):
        m2.amplitude = a
        mon.close("amplitude", get(x, x.shape, m2), got * float(a), rtol=1e-6, msg="amplitude %r" % (a,))
    mon.close("amplitude", get(x, x.shape, TableModel(E, V, amplitude=0)), got * 0, rtol=1e-6, msg="amplitude 0")
    # the caller's arrays stay as they were, and are not shared
    mon.check("own-copy", np.array_equal(Ein.value, E[order].value)
              and np.array_equal(np.asarray(Vin), np.asarray(V[order])), "input arrays changed")
    Vin[:] = Vin * 7
    Ein[:] = Ein * 1.1
    mon.close("own-copy", get(x, x.shape), got, rtol=1e-12, msg="after edits of the input arrays")
    if case["rs"] % 3 == 0:
        # a table with zeros: at one end, at both, or anywhere
        k = rng.randint(4)
        z = np.zeros(len(le), bool)
        if k == 0:
            z[-rng.randint(1, len(le)):] = True
        elif k == 1:
            z[[0, -1]] = True
        elif k == 2:
            z[rng.rand(len(le)) < 0.3] = True
        else:
            z[:] = rng.rand() < 0.3
        v0 = np.where(z, 0.0, v)
        m0 = TableModel(E[order].copy(), (v0 if vu is None else v0 * u.Unit(vu))[order])
        mon.cls("zeros", "none" if not z.any() else "all" if z.all() else "some")
        mon.close("zeros", get(E, E.shape, m0), v0, rtol=1e-7, msg="at the energies of a table with zeros")
        h = 10 ** ((le[1:] + le[:-1]) / 2) * u.eV
        gz = get(h, h.shape, m0)
        mon.check("zeros", np.all(np.isfinite(gz)) and np.array_equal(gz > 0, ~(z[1:] | z[:-1])),
                  "between the energies of a table with zeros: %s" % gz, n=len(h))
        for j in {0, len(h) - 1, rng.randint(len(h))}:
            mon.close("zeros", get(h[j], (), m0), gz[j], rtol=1e-12, msg="scalar")
        mon.close("zeros", get(out, 4, m0), np.zeros(4), msg="outside of a table with zeros")
    if case["rs"] % 6 == 0:
        import naima.models as nm

        mon.cls("radiative", "yes")
        par = dict(amplitude=1e36 / u.eV, e_0=1 * u.TeV, alpha=float(rng.uniform(1.5, 3)))
        pl = nm.PowerLaw(**par)
        g = np.geomspace(1e9, 1e15, 120) * u.eV
        tab = TableModel(g, pl(g))
        ph = np.geomspace(1e-3, 1e4, 6) * u.eV
        kw = dict(B=1e-5 * u.G, Eemin=1.01 * u.GeV, Eemax=900 * u.TeV, nEed=30)
        mon.close("radiative", val(nm.Synchrotron(tab, **kw).flux(ph), "1/(s cm2 eV)"),
                  val(nm.Synchrotron(pl, **kw).flux(ph), "1/(s cm2 eV)"), rtol=1e-6,
                  msg="tabulated and analytic population")
    mon.sample(points=len(le), degree=case["deg"], unit=vu)
