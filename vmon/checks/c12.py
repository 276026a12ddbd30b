"""C12: EBL absorption."""
import os

import numpy as np
from astropy import units as u

from .. import build as b
from .. import load
from ..core import ObservationError, logu, sig, val

RULE = """Random redshifts (zero, below 0.01, on and between the columns of the
table, up to 3.99) and photon energies from radio to 10 PeV in random units and
order, with the limits of the table among them. Oracles: exp(-tau) of the
published table at its own energies for the nearest redshift; monotonous
bracketing between its energies; transparency below 1 GeV and below z = 0.01; the
opacity of 100 TeV above; values within [0, 1]; decrease with redshift; absorption
applied to a spectrum. Non-trivial: some transmission is neither 0 nor 1."""
REQUIRED = ["table", "between", "range", "transparent", "above-100TeV", "redshift",
            "expression", "invalid"]


def setup():
    global ZE, TAU
    f = os.path.join(load.SRC, "naima", "data", "tau_dominguez11.npz")
    t = np.load(f)["arr_0"]
    ZE = np.asarray(t["energy"], float) * 1e12
    TAU = np.array([t["col%d" % (2 + i)] for i in range(399)], float)


def gen(rng, tier):
    n = 400 if tier == "quick" else 12000
    out = []
    for i in range(n):
        k = i % 6
        if k == 0:
            z = rng.choice([0.0, 0.0099, 0.005, sig(rng.uniform(0, 0.0099), 4)])
        elif k == 1:
            z = round(rng.randint(1, 399) * 0.01, 2)
        elif k == 2:
            z = round(rng.randint(1, 398) * 0.01 + rng.uniform(-0.0048, 0.0048), 5)
            z = max(z, 0.01)
        else:
            z = round(logu(rng, 0.0101, 3.99), 4)
        un = rng.choice(b.EUNITS)
        e = [logu(rng, 1e10, 1e14) for _ in range(12)] + [logu(rng, 1e-3, 9.9e8), logu(rng, 1.01e14, 1e16)]
        rng.shuffle(e)
        out.append({"z": z, "E": [[sig(x * u.eV.to(un), 9) for x in e], un],
                    "rs": rng.randrange(1 << 30)})
    return out


def run(case, mon):
    from naima.models import EblAbsorptionModel, PowerLaw

    z = case["z"]
    rng = np.random.RandomState(case["rs"])
    x = z / 0.01
    if z >= 0.01 and abs(x - np.floor(x) - 0.5) < 0.02:
        return mon.mark_trivial()  # half way between two columns
    m = EblAbsorptionModel(z * u.dimensionless_unscaled if rng.rand() < 0.3 else z)
    mon.cls("redshift", "below 0.01" if z < 0.01 else "%.0f" % np.ceil(z))
    E = b.Q(case["E"])
    e = E.to("eV").value

    def get(en, shape):
        return val(m.transmission(en), None, shape, "transmission")

    T = get(E, E.shape)
    mon.check("range", np.all((T >= 0) & (T <= 1)), "transmission outside [0, 1]", T=T, z=z)
    below = e < 0.999e9
    mon.close("transparent", T[below], np.ones(below.sum()), msg="below 1 GeV")
    wide = np.geomspace(0.7e9, 1e14, 60) * u.eV
    Tw = get(wide, wide.shape)
    mon.check("range", np.all((Tw >= 0) & (Tw <= 1)), "transmission outside [0, 1]",
              worst=Tw.max(), z=z)
    mon.check("range", np.all(np.diff(Tw) < 1e-5), "transmission increases with energy", z=z)
    edge = u.Quantity([1 * u.GeV, 1e9 * u.eV, 100 * u.TeV, 1e14 * u.eV, 1e8 * u.MeV])
    for q in (edge, edge.to("erg"), edge.to("TeV")):
        Te = get(q, 5)
        mon.check("range", np.all((Te >= 0) & (Te <= 1)), "transmission at the limits", T=Te)
    if z < 0.01:
        mon.check("transparent", np.all(T == 1) and np.all(Tw == 1) and np.all(Te == 1),
                  "absorption below z=0.01", z=z, T=T)
        mon.mark_trivial()
    else:
        # nearest column of the published table
        tau = np.minimum(TAU[int(np.argmin(np.abs(np.arange(1, 400) * 0.01 - z)))], 150.0)
        i = rng.choice(np.arange(2, len(ZE) - 1), 25, replace=False)
        mon.close("table", get(ZE[i] * u.eV, 25), np.exp(-tau[i]), rtol=1e-5, atol=1e-7,
                  msg="energies of the table, z=%g" % z)
        if not np.any(tau > 1e-3):
            mon.mark_trivial()
        inn = (e > ZE[1]) & (e < ZE[-2])
        j = np.searchsorted(ZE, e[inn])
        d = 1e-4 + 0.02 * np.abs(tau[j] - tau[j - 1])
        lo, hi = np.minimum(tau[j - 1], tau[j]) - d, np.maximum(tau[j - 1], tau[j]) + d
        mon.seen("between", inn.sum())
        # the table is cut at 150
        lo, hi = lo - np.where(hi > 100, 20, 0), hi + np.where(hi > 100, 20, 0)
        bad = (T[inn] < np.exp(-hi) * 0.999) | (T[inn] > np.exp(-lo) * 1.001)
        if bad.any():
            mon.violate("between", "transmission %s outside of the neighbours in the table "
                        "[%s, %s] at %s eV, z=%g" % (T[inn][bad], np.exp(-hi)[bad],
                                                     np.exp(-lo)[bad], e[inn][bad], z))
        # interpolation is smooth: close to linear in tau between neighbours
        w = np.log(e[inn] / ZE[j - 1]) / np.log(ZE[j] / ZE[j - 1])
        lin = tau[j - 1] * (1 - w) + tau[j] * w
        mon.close("between", T[inn], np.exp(-lin), rtol=5e-3 * (1 + np.abs(tau[j])), atol=1e-5,
                  msg="interpolated transmission", mask=tau[j] < 15)
        above = e > 1.001e14
        ref = get(99.9999999 * u.TeV, ())
        mon.close("above-100TeV", T[above], np.full(above.sum(), float(ref)), rtol=1e-4,
                  msg="above 100 TeV")
        # farther sources are more absorbed
        if z < 3.9:
            T2 = val(EblAbsorptionModel(z + 0.0399 if z > 0.05 else z + 0.02).transmission(E))
            mon.check("redshift", np.all(T2 <= T + 2e-3), "a farther source is less absorbed",
                      z=z, T=T, T2=T2)
    k = rng.randint(len(e))
    mon.close("expression", get(E[k], ()), T[k], rtol=1e-9, msg="scalar")
    un = rng.choice(b.EUNITS)
    mon.close("expression", get(E.to(un), E.shape), T, rtol=1e-6, atol=1e-12, msg="unit " + un)
    p = rng.permutation(len(e))
    mon.close("expression", get(E[p], E.shape), T[p], rtol=1e-9, msg="order")
    mon.close("expression", get({"energy": E}, E.shape), T, rtol=1e-9, msg="dict")
    # as used in the documentation
    pl = PowerLaw(1e-12 * u.Unit("1/(cm2 s TeV)"), 1 * u.TeV, 2.2)
    mon.close("expression", val(m.transmission(E) * pl(E), "1/(cm2 s TeV)", E.shape),
              T * val(pl(E), "1/(cm2 s TeV)"), rtol=1e-9, msg="absorbed spectrum")
    mon.raises("invalid", (ValueError,), lambda: EblAbsorptionModel(-0.1), "negative redshift")
    mon.raises("invalid", (ValueError,), lambda: EblAbsorptionModel(0.1, "Unknown"), "model")
    mon.raises("invalid", (TypeError,), lambda: m.transmission(3 * u.s), "not an energy")
    mon.sample(z=z, T=[float(T.min()), float(T.max())])
