"""C07: bremsstrahlung spectra against Baring et al. (1999)."""
import math

import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random electron distributions (down to sub-relativistic energies), grid
densities, ion densities and weights, with photon energies from 1e-9 eV to beyond
the electrons, including exact grid energies. Oracle: an independent, cancellation
free implementation of Eqs. A1-A7 of Baring et al. (1999) on the documented
electron grid, and the documented default weights of an ISM plasma. Non-trivial:
the spectrum is not identically zero."""
REQUIRED = ["reference", "default-weights", "ep-only", "ee-only", "nonrel"]
F0 = "1/(s eV)"
X = np.array([1.0, 9.59e-2]) / 1.0959
W_EE, W_EP = float(X[0] + 2 * X[1]), float(X[0] + 4 * X[1])


def gen(rng, tier):
    n = 500 if tier == "quick" else 15000
    cases = []
    for i in range(n):
        s = b.gen_radiative(rng, "Bremsstrahlung")
        mode = rng.choice(["any", "default", "ee", "ep", "low", "pure"])
        if mode == "default":
            s.pop("weight_ee", None)
            s.pop("weight_ep", None)
        elif mode == "ee":
            s["weight_ep"] = 0.0
            s["weight_ee"] = 1.0
        elif mode == "ep":
            s["weight_ee"] = 0.0
            s["weight_ep"] = round(rng.uniform(0.5, 2), 3)
        elif mode == "low":
            s["Eemin"] = [sig(logu(rng, 0.52, 10)), "MeV"]
            s["Eemax"] = [sig(logu(rng, 11, 1e5)), "MeV"]
            s["weight_ep"] = rng.choice([0.0, 1.2])
        elif mode == "pure":
            s = {k: v for k, v in s.items() if k in ("type", "particle")}
        if mode in ("any", "ee", "ep") and rng.random() < 0.3:
            # minor constituents
            for k in ("weight_ee", "weight_ep"):
                if s.get(k) != 0.0 and rng.random() < 0.7:
                    s[k] = sig(logu(rng, 1e-6, 0.1))
        e, un = b.gen_energies(rng, "Bremsstrahlung", n=12, sort=False)
        if rng.random() < 0.3:
            f = u.eV.to(un)
            e = e[:6] + [sig(logu(rng, 1e-9, 1e6) * f, 8) for _ in range(6)]
        cases.append({"spec": s, "mode": mode, "E": [e, un],
                      "n2": sig(logu(rng, 1e-2, 1e3)), "rs": rng.randrange(1 << 30)})
    return cases


def run(case, mon):
    spec = case["spec"]
    if P.ambiguous(spec):
        return mon.mark_trivial()
    rng = np.random.RandomState(case["rs"])
    mon.cls("mode", case["mode"])
    mon.cls("particle", spec["particle"]["type"])
    m = b.radiative(spec)
    n0 = b.Q(spec.get("n0", [1.0, "1/cm3"])).to("1/cm3").value
    wee, wep = spec.get("weight_ee", W_EE), spec.get("weight_ep", W_EP)
    if case["mode"] in ("default", "pure"):
        mon.close("default-weights", [m.weight_ee, m.weight_ep], [1.0875, 1.2625],
                  rtol=1e-3, msg="weights of a plasma with ISM abundances")
        if case["mode"] == "pure":
            mon.close("default-weights", [m.n0.to("1/cm3").value, m.nEed,
                                          m.Eemin.to("MeV").value], [1, 300, 100], rtol=1e-9)
    E = b.Q(case["E"])
    e = P.ev(E)
    want, fuzz = P.bremsstrahlung(spec, e, n0, wee, wep)
    got = val(m.flux(E, distance=0), F0, E.shape)
    if not want.any():
        mon.mark_trivial()
    rule = {"ee": "ee-only", "ep": "ep-only", "low": "nonrel"}.get(case["mode"], "reference")
    tol = fuzz + max(1e-280, 1e-40 * np.abs(want).max())
    mon.close(rule, got, want, rtol=3e-5, atol=tol, msg="Baring et al. spectrum")
    mon.close("reference", val(m.sed(E), "erg/(s cm2)"),
              want * e**2 * P.ERG / (4 * math.pi * P.KPC_CM**2), rtol=3e-5,
              atol=tol * e**2 * P.ERG / (4 * math.pi * P.KPC_CM**2), msg="SED")
    # photon energies on the grid of electrons, and around it
    gam, _ = P.el_setup(spec)
    k = gam[rng.randint(len(gam), size=3)]
    ee = np.concatenate([k, k * (1 + 1e-7), k * (1 - 1e-7)]) * P.MEC2_EV
    a, c = got[0], None
    g = val(m.flux(ee * u.eV, distance=0), F0, ee.shape)
    w, fz = P.bremsstrahlung(spec, ee, n0, wee, wep)
    # at the very point the cross section jumps from zero: allow that bin
    slack = np.zeros(len(ee))
    for i, x in enumerate(ee / P.MEC2_EV):
        j = np.clip(np.searchsorted(gam, x), 1, len(gam) - 1)
        sl = slice(max(0, j - 2), min(len(gam), j + 2))
        sub = dict(spec)
        gg, nn = gam[sl], P.particle_per_ev(sub["particle"], gam[sl] * P.MEC2_EV) * P.MEC2_EV
        slack[i] = n0 * P.C / P.MEC2_EV * np.sum(gg[1:] * nn[1:] * np.diff(np.log(gg))) * (
            abs(wee) + abs(wep)) * 16 * P.R0**2 * P.ALPHA / x * (1 + np.log(2 * x + 2))
    mon.close("at-grid-energies", g, w, rtol=3e-5, atol=fz + slack + 1e-40 * np.abs(w).max(),
              msg="photon energies at grid energies")
    # a change of the density
    m.n0 = case["n2"] / u.cm**3
    want2 = want * case["n2"] / n0
    mon.close("reference", val(m.flux(E, distance=0), F0, E.shape), want2, rtol=3e-5,
              atol=tol * case["n2"] / n0, msg="after changing n0")
    mon.sample(mode=case["mode"], n0=n0, weights=[wee, wep], E_eV=[float(e.min()), float(e.max())])
