"""C03: spectra do not depend on how energies and distances are expressed."""
import json

import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random models of all five radiative classes, evaluated at random
photon energies (unsorted and repeated ones included). The reference evaluation
is compared with evaluations in other units, as scalars, dict, Table, QTable,
pieces, permutations, single precision, at distances in several units, and with all
parameters of the model in other units.
Non-trivial: every case, as each compares at least eight expressions."""
REQUIRED = ["inverse-square", "sed=E2*flux", "energy-unit", "table-forms", "pointwise",
            "scalar", "permutation", "distance-unit", "parameter-unit"]

PC = {"cm": 1.0, "m": 1e2, "pc": 3.0856775814913674e18, "kpc": 3.0856775814913674e21,
      "Mpc": 3.0856775814913674e24, "lyr": 9.4607304725808e17}
EV = {"eV": 1.0, "keV": 1e3, "MeV": 1e6, "GeV": 1e9, "TeV": 1e12, "PeV": 1e15,
      "erg": 1 / 1.602176634e-12, "J": 1 / 1.602176634e-19}


def gen(rng, tier):
    n = 260 if tier == "quick" else 6000
    cases = []
    for i in range(n):
        kind = rng.choice(["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay"])
        if i % 60 == 7:
            kind = "PionDecayKelner06"
        m = b.gen_radiative(rng, kind)
        nE = 3 if "Kelner" in kind else rng.choice([2, 5, 9])
        e, un = b.gen_energies(rng, kind, n=nE, sort=rng.random() < 0.6)
        if rng.random() < 0.3:
            e[-1] = e[0]
        dun = rng.choice(sorted(PC))
        cases.append({
            "spec": m, "E": [e, un], "unit2": rng.choice([x for x in sorted(EV) if x != un]),
            "d": sig(logu(rng, 1e17, 1e28) / PC[dun]), "dun": dun,
            "dun2": rng.choice([x for x in sorted(PC) if x != dun]),
            "rs": rng.randrange(1 << 30),
        })
    return cases


FU, FU0 = "1/(s cm2 eV)", "1/(s eV)"
SU, SU0 = "erg/(s cm2)", "erg/s"


def run(case, mon):
    rng = np.random.RandomState(case["rs"])
    spec = case["spec"]
    mon.cls("model", spec["type"])
    mon.cls("unit", case["E"][1])
    mon.cls("distance-unit", case["dun"])
    E = b.Q(case["E"])
    n = len(E)
    e_ev = np.array(case["E"][0]) * EV[case["E"][1]]
    d = u.Quantity(case["d"], case["dun"])
    d_cm = case["d"] * PC[case["dun"]]
    new = lambda: b.radiative(spec)  # noqa: E731
    m = new()
    f0 = val(m.flux(E, distance=0), FU0, n, "flux(distance=0)")
    big = np.abs(f0) > 1e-200 * np.max(np.abs(f0)) if np.any(f0) else np.ones(n, bool)
    if not np.any(f0):
        mon.mark_trivial()
    # away from the underflow of doubles at any of the distances
    ok = (f0 > 1e-200) | (f0 == 0)
    # adaptive quadrature may refine differently after a change in the last bit
    slow = "Kelner" in spec["type"]
    rt = 3e-3 if slow else 1e-6
    mon.close("inverse-square", val(m.flux(E, distance=0 * u.kpc), FU0, n), f0, rtol=1e-12,
              msg="distance = 0 kpc and 0")
    f = val(m.flux(E, distance=d), FU, n, "flux")
    mon.close("inverse-square", f * (4 * np.pi * d_cm**2), f0, rtol=1e-9,
              mask=ok, msg="flux at %s" % d)
    mon.close("inverse-square", val(m.flux(E), FU, n) * (4 * np.pi * PC["kpc"] ** 2), f0,
              rtol=1e-9, mask=ok, msg="flux at the default distance of 1 kpc")
    s = val(m.sed(E, distance=d), SU, n, "sed")
    erg = 1.602176634e-12
    mon.close("sed=E2*flux", s, f * e_ev**2 * erg, rtol=1e-9, mask=ok, msg="sed")
    mon.close("sed=E2*flux", val(m.sed(E, distance=0), SU0, n), f0 * e_ev**2 * erg,
              rtol=1e-9, mask=ok, msg="sed at distance 0")
    mon.close("sed=E2*flux", val(m.sed(E), SU, n), val(m.flux(E), FU, n) * e_ev**2 * erg,
              rtol=1e-9, mask=ok, msg="sed at the default distance")
    mon.close("distance-unit", val(m.flux(E, distance=d.to(case["dun2"])), FU, n), f,
              rtol=1e-9, mask=ok, msg="distance in " + case["dun2"])
    mon.close("distance-unit", val(m.sed(E, d.to(case["dun2"])), SU, n), s,
              rtol=1e-9, mask=ok, msg="distance in " + case["dun2"])
    # parameters in other units
    if not slow and not P.ambiguous(spec):
        spec2 = b.reunit(rng, spec)
        g = val(b.radiative(spec2).flux(E, distance=d), FU, n)
        mon.close("parameter-unit", g, f, rtol=rt, mask=big & ok,
                  msg="parameters given as %s" % json.dumps(spec2))
    # energies in another unit
    f1 = val(new().flux(E.to(case["unit2"]), distance=d), FU, n)
    mon.close("energy-unit", f1, f, rtol=rt, mask=big & ok,
              msg="energies in %s and %s" % (case["unit2"], case["E"][1]))
    s1 = val(new().sed(E.to(case["unit2"]), distance=d), SU, n)
    mon.close("energy-unit", s1, s, rtol=rt, mask=big & ok,
              msg="energies in %s and %s" % (case["unit2"], case["E"][1]))
    # tables
    mm = new() if rng.rand() < 0.5 else m
    for form in (dict(energy=E), Table({"energy": E, "flux": np.ones(n)}), QTable({"energy": E})):
        mon.close("table-forms", val(mm.flux(form, distance=d), FU, n), f, rtol=1e-12,
                  msg="flux of a " + type(form).__name__)
        mon.close("table-forms", val(mm.sed(form, distance=d), SU, n), s, rtol=1e-12,
                  msg="sed of a " + type(form).__name__)
    # a list, each in its own unit
    un = [x for x in sorted(EV) if x != "J"]
    un = [un[rng.randint(len(un))] for _ in range(n)]
    mon.close("table-forms", val(mm.flux([x.to(y) for x, y in zip(E, un)], distance=d), FU, n), f, rtol=rt,
              mask=big & ok, msg="list of energies in %s" % un)
    # one at a time and in pieces
    mm = new()
    k = int(rng.randint(n))
    for j in {k} if slow else {k, 0, n - 1}:
        g = val(mm.flux(E[j : j + 1], distance=d), FU, 1)
        mon.close("pointwise", g[0], f[j], rtol=1e-9, msg="energy %d of %d alone" % (j, n))
        g = val(mm.flux(E[j], distance=d), FU, ())
        mon.close("scalar", g, f[j], rtol=1e-9, msg="scalar energy")
        g = val(mm.sed(E[j], distance=d), SU, ())
        mon.close("scalar", g, s[j], rtol=1e-9, msg="sed of a scalar energy")
    cut = int(rng.randint(1, n))
    g = np.concatenate([val(mm.flux(E[:cut], distance=d), FU, cut),
                        val(mm.flux(E[cut:], distance=d), FU, n - cut)])
    mon.close("pointwise", g, f, rtol=1e-9, msg="in two pieces")
    p = rng.permutation(n)
    mon.close("permutation", val(new().flux(E[p], distance=d), FU, n), f[p], rtol=1e-9,
              msg="permuted energies")
    r = np.concatenate([np.arange(n), [k, k]])
    mon.close("permutation", val(mm.flux(E[r], distance=d), FU, n + 2), f[r], rtol=1e-9,
              msg="repeated energies")
    # storage of the numbers
    if case["E"][1] in ("keV", "MeV", "GeV", "TeV"):
        for dt in (">f8", "f4", ">f4"):
            q = u.Quantity(np.array(E.value, dtype=dt), E.unit, dtype=dt, copy=False)
            ref = val(mm.flux(u.Quantity(q.value.astype(float), E.unit), distance=d), FU, n)
            g = val(mm.flux(q, distance=d), FU, n)
            mon.close("storage", g, ref, rtol=2e-3, mask=ref > 1e-4 * ref.max(),
                      msg="energies stored as " + dt)
    strided = np.repeat(E.value, 2)[::2] * E.unit
    mon.close("storage", val(mm.flux(strided, distance=d), FU, n), f, rtol=1e-9,
              msg="strided energies")
    mon.sample(model=spec["type"], unit=case["E"][1], unit2=case["unit2"], d=str(d))
