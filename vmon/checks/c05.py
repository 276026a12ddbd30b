"""C05: synchrotron spectra against the published emissivity."""
import math

import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random electron distributions, energy limits, grid densities and
magnetic fields (in G, uG, nT, T), at photon energies from radio to gamma rays.
Oracles: an independent implementation of Eq. D7 of Aharonian, Kelner &
Prosekin (2010) on the documented electron grid; the exact pitch-angle averaged
Bessel kernel for narrow populations; the classical power 4/3 sigma_T c gamma^2 U_B;
and the slope of power-law populations. Non-trivial: the spectrum is not
identically zero."""
REQUIRED = ["reference", "exact-kernel", "radiated-power", "B-scaling"]
F0 = "1/(s eV)"
GAUSS = {"G": 1.0, "uG": 1e-6, "mG": 1e-3, "T": 1e4, "nT": 1e-5, "uT": 1e-2, "nG": 1e-9}


def gen(rng, tier):
    n, k, p = (700, 40, 40) if tier == "quick" else (25000, 800, 800)
    cases = []
    for _ in range(n):
        s = b.gen_radiative(rng, "Synchrotron")
        un = rng.choice(sorted(GAUSS))
        s["B"] = [sig(logu(rng, 1e-8, 1e2) / GAUSS[un]), un]
        E = b.gen_energies(rng, "Synchrotron", sort=False)
        if rng.random() < 0.15:
            # mildly relativistic electrons
            lo = logu(rng, 0.52, 8)
            s["Eemin"] = [sig(lo), "MeV"]
            s["Eemax"] = [sig(lo * logu(rng, 1.5, 1e4)), "MeV"]
            f = u.eV.to(E[1])
            E = [[sig(logu(rng, 1e-14, 1e-3) * f, 8) for _ in E[0]], E[1]]
        elif rng.random() < 0.2:
            # intergalactic voids and neutron stars
            B = logu(rng, *rng.choice([(1e-18, 1e-8), (1e2, 1e9)]))
            s["B"] = [b.neat(rng, B / GAUSS[un]), un]
            f = u.eV.to(E[1])
            E = [[sig(logu(rng, 1, 1e13) * B * f, 8) for _ in E[0]], E[1]]
        cases.append({"kind": "ref", "spec": s,
                      "E": E,
                      "setB": rng.choice([None, sig(logu(rng, 0.1, 1e4))]),
                      "default": rng.random() < 0.1})
    for _ in range(k):
        cases.append({"kind": "kernel", "E0": sig(logu(rng, 1e9, 3e14)),
                      "B": sig(logu(rng, 1e-6, 1e-2)), "x": sig(logu(rng, 1e-4, 8)),
                      "amp": sig(logu(rng, 1e30, 1e40))})
    for _ in range(p):
        cases.append({"kind": "power", "E0": sig(logu(rng, 1e9, 3e14)),
                      "w": rng.choice([1.2, 2, 10]), "alpha": round(rng.uniform(1.5, 3.5), 2),
                      "B": sig(logu(rng, 1e-6, 1e-2)), "k": sig(logu(rng, 1.5, 50))})
    rng.shuffle(cases)
    return cases


def run(case, mon):
    import naima.models as nm

    mon.cls("kind", case["kind"])
    if case["kind"] == "ref":
        spec = case["spec"]
        if P.ambiguous(spec):
            return mon.mark_trivial()
        mon.cls("particle", spec["particle"]["type"])
        mon.cls("B-unit", spec["B"][1])
        m = b.radiative(spec)
        B = spec["B"][0] * GAUSS[spec["B"][1]]
        if case["default"]:
            spec = {k: v for k, v in spec.items() if k in ("type", "particle")}
            m = b.radiative(spec)
            B = 3.24e-6
        E = b.Q(case["E"])
        e = P.ev(E)
        want, fz = P.synchrotron(spec, e, B)
        got = val(m.flux(E, distance=0), F0, E.shape)
        if not want.any():
            mon.mark_trivial()
        mon.close("reference", got, want, rtol=2e-5,
                  atol=fz + max(1e-280, 1e-40 * want.max()), msg="AKP10 spectrum")
        d = 2.5
        k = e**2 * P.ERG / (4 * math.pi * (d * P.KPC_CM) ** 2)
        mon.close("reference", val(m.sed(E, distance=d * u.kpc), "erg/(s cm2)"),
                  want * k, rtol=2e-5, atol=(fz + 1e-40 * want.max()) * k + 1e-300,
                  msg="AKP10 SED")
        if case["setB"]:
            m.B = case["setB"] * u.uG
            want2, fz2 = P.synchrotron(spec, e, case["setB"] * 1e-6)
            mon.close("reference", val(m.flux(E, distance=0), F0, E.shape),
                      want2, rtol=2e-5, atol=fz2 + max(1e-280, 1e-40 * want2.max()),
                      msg="AKP10 spectrum after changing B")
        mon.sample(B=spec.get("B"), electrons=spec["particle"]["type"], n=len(e))
    elif case["kind"] == "kernel":
        # electrons within 0.1%: the spectrum follows the single-electron kernel
        E0, B = case["E0"], case["B"]
        pl = nm.PowerLaw(case["amp"] / u.eV, E0 * u.eV, 2.0)
        m = nm.Synchrotron(pl, B=B * u.G, Eemin=E0 * u.eV, Eemax=1.001 * E0 * u.eV)
        g = E0 * math.sqrt(1.001) / P.MEC2_EV
        ec = 1.5 * P.ESU * P.HBAR * B * g**2 / (P.ME * P.C)  # erg
        e = case["x"] * ec / P.ERG
        N = case["amp"] * E0 * (1 - 1 / 1.001)
        k = P.synchrotron_exact_kernel(case["x"])
        want = (math.sqrt(3) * P.ESU**3 * B / (2 * math.pi * P.MEC2_ERG * P.HBAR * e)
                / P.ERG * P.ERG * k * N)
        got = val(m.flux(e * u.eV, distance=0), F0, ())
        mon.close("exact-kernel", got, want, rtol=0.02,
                  msg="single-electron kernel at x=%g" % case["x"])
    else:
        E0, B, w, al = case["E0"], case["B"], case["w"], case["alpha"]
        pl = nm.PowerLaw(1e36 / u.eV, E0 * u.eV, al)
        kw = dict(Eemin=E0 * u.eV, Eemax=w * E0 * u.eV, nEed=200)
        m = nm.Synchrotron(pl, B=B * u.G, **kw)
        g = np.array([E0, w * E0]) / P.MEC2_EV
        ec = 1.5 * P.ESU * P.HBAR * B * g**2 / (P.ME * P.C) / P.ERG
        e = np.geomspace(ec[0] * 1e-7, ec[1] * 60, 400)
        f = val(m.flux(e * u.eV, distance=0), F0, e.shape)
        L = np.trapezoid(f * e**2, np.log(e))
        gam = np.geomspace(g[0], g[1], 2000)
        ne = 1e36 * P.MEC2_EV * (gam * P.MEC2_EV / E0) ** -al
        want = 4 / 3 * P.SIGT * P.C * B**2 / (8 * math.pi) / P.ERG * np.trapezoid(
            ne * gam**3, np.log(gam))
        mon.close("radiated-power", L, want, rtol=0.02, msg="total synchrotron power")
        # F(E; kB) = k F(E/k; B) for the single electron kernel E*dN/dE
        k = case["k"]
        m2 = nm.Synchrotron(pl, B=k * B * u.G, **kw)
        e2 = e[50:250:10]
        a = val(m2.flux(e2 * k * u.eV, distance=0), F0)
        c = val(m.flux(e2 * u.eV, distance=0), F0)
        mon.close("B-scaling", a, c, rtol=1e-6, msg="scaling of energies with the field")
        mon.sample(power=L, expected=want)
