"""C06: inverse Compton spectra against published kernels and exact kinematics."""
import math

import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random electron distributions and seed photon fields of every kind.
Oracles: an independent implementation of Eqs. 11 and 14 of Khangulyan et al.
(2014) and of the Jones/Aharonian & Atoyan kernel on the documented electron
grid; direct integration of the Klein-Nishina rate over the Planck spectrum
(isotropic and beamed); equality of the energy loss with 4/3 sigma_T c gamma^2 U
in the Thomson regime; exact zero beyond the largest photon energy. Non-trivial:
the spectrum is not identically zero."""
REQUIRED = ["reference", "exact-planck", "exact-beam", "thomson-power", "kinematic-limit",
            "tabulated=thermal", "isotropic-average"]
F0 = "1/(s eV)"


def gen(rng, tier):
    n, k, p = (600, 60, 40) if tier == "quick" else (20000, 1500, 1000)
    cases = []
    for _ in range(n):
        s = b.gen_radiative(rng, "InverseCompton")
        if isinstance(s["seed_photon_fields"], str):
            s["seed_photon_fields"] = ["CMB"]
        if rng.random() < 0.1:
            s["Eemin"] = rng.choice([[0.3, "MeV"], [0.511, "MeV"], [2, "MeV"]])
        cases.append({"kind": "ref", "spec": s,
                      "E": b.gen_energies(rng, "InverseCompton", sort=False)})
    for i in range(k):
        cases.append({"kind": "exact", "E0": sig(logu(rng, 1e9, 1e15)),
                      "T": sig(logu(rng, 2, 3e4)), "x": sig(logu(rng, 1e-4, 0.98)),
                      "theta": None if i % 2 else round(rng.uniform(0.3, math.pi), 3),
                      "dil": sig(logu(rng, 1e-6, 1))})
    for _ in range(p):
        cases.append({"kind": "thomson", "g": sig(logu(rng, 1e2, 3e5)),
                      "seed": rng.choice(["bb", "mono", "array"]),
                      "u": sig(logu(rng, 1e-2, 1e3)), "w": rng.choice([1.2, 3, 10]),
                      "alpha": round(rng.uniform(1.5, 3.2), 2)})
        cases.append({"kind": "tab", "T": sig(logu(rng, 3, 5e3)),
                      "p": b.gen_particle(rng), "E": b.gen_energies(rng, "InverseCompton", n=6),
                      "u": sig(logu(rng, 1e-2, 1e3)), "form": rng.randrange(2)})
        cases.append({"kind": "iso", "T": sig(logu(rng, 3, 5e3)),
                      "p": b.gen_particle(rng), "u": sig(logu(rng, 1e-2, 1e3)),
                      "E": b.gen_energies(rng, "InverseCompton", n=6)})
    rng.shuffle(cases)
    return cases


def run(case, mon):
    import naima.models as nm

    mon.cls("kind", case["kind"])
    if case["kind"] == "ref":
        spec = case["spec"]
        if P.ambiguous(spec):
            return mon.mark_trivial()
        m = b.radiative(spec)
        E = b.Q(case["E"])
        e = P.ev(E)
        tot = np.zeros(len(e))
        fuzz = np.zeros(len(e))
        for s in spec["seed_photon_fields"]:
            info = P.seed_info(s)
            mon.cls("seed", info["kind"])
            want, fz = P.inverse_compton(spec, e, s)
            tot += want
            fuzz += fz
            got = val(m.flux(E, distance=0, seed=b.seed_name(s)), F0, E.shape)
            mon.close("reference", got, want, rtol=2e-5,
                      atol=fz + max(1e-280, 1e-40 * want.max()), msg="%s seed %s" % (info["kind"], s))
        if not tot.any():
            mon.mark_trivial()
        got = val(m.flux(E, distance=0), F0, E.shape)
        mon.close("reference", got, tot, rtol=2e-5,
                  atol=fuzz + max(1e-280, 1e-40 * tot.max()), msg="total")
        k = e**2 * P.ERG / (4 * math.pi * P.KPC_CM**2)
        mon.close("reference", val(m.sed(E), "erg/(s cm2)", E.shape), tot * k, rtol=2e-5,
                  atol=(fuzz + 1e-40 * tot.max()) * k + 1e-300, msg="SED at 1 kpc")
        top = P.el_limits(spec)[1]
        ee = top * np.array([1 + 1e-9, 1.3, 100.0])
        z = val(m.flux(ee * u.eV, distance=0), F0, 3)
        mon.check("kinematic-limit", np.all(z == 0),
                  "photons of %s eV from electrons up to %g eV: %s" % (ee, top, z))
        # above the maximum energy for head-on scattering of mono-energetic photons
        for s in spec["seed_photon_fields"]:
            info = P.seed_info(s)
            if info["kind"] in ("mono", "array"):
                g = top / P.MEC2_EV
                e0 = np.max(info["e"]) / P.MEC2_EV
                bb = 4 * e0 * g
                em = g * bb / (1 + bb) * P.MEC2_EV
                z = val(m.flux([em * (1 + 1e-6), (em + top) / 2] * u.eV, distance=0,
                               seed=b.seed_name(s)), F0, 2)
                mon.check("kinematic-limit", np.all(z == 0),
                          "photons above the Compton edge %g eV: %s" % (em, z))
        mon.sample(seeds=spec["seed_photon_fields"], electrons=spec["particle"]["type"])
    elif case["kind"] == "exact":
        E0, T, th = case["E0"], case["T"], case["theta"]
        pl = nm.PowerLaw(1e36 / u.eV, E0 * u.eV, 2.0)
        ud = P.bb_density(T) * case["dil"]
        seed = ["x", T * u.K, ud * u.eV / u.cm**3] + ([] if th is None else [th * u.rad])
        m = nm.InverseCompton(pl, seed_photon_fields=[seed], Eemin=E0 * u.eV,
                              Eemax=1.001 * E0 * u.eV)
        g = E0 * math.sqrt(1.001) / P.MEC2_EV
        t = P.KB_EV * T / P.MEC2_EV
        # scale photon energies with the largest typical one
        c4 = 4 if th is None else 2 * (1 - math.cos(th))
        top = c4 * g * 3 * t
        eg = case["x"] * 3 * g * top / (1 + top)
        if eg >= g:
            eg = g * (0.2 + 0.79 * case["x"])
        want = P.ic_bb_exact(g, T, eg, th) * case["dil"] / P.MEC2_EV
        N = 1e36 * E0 * (1 - 1 / 1.001)
        got = val(m.flux(eg * P.MEC2_EV * u.eV, distance=0), F0, ())
        # far in the exponential tail the fit is not claimed to be accurate
        z = eg / g
        tail = z / (1 - z) / (c4 * g * t) > 12
        if tail:
            return mon.mark_trivial()
        mon.close("exact-planck" if th is None else "exact-beam", got, want * N, rtol=0.05,
                  msg="Klein-Nishina on a black body, z=%g" % z)
    elif case["kind"] == "thomson":
        g0, w = case["g"], case["w"]
        E0 = g0 * P.MEC2_EV
        # seed energies deep in the Thomson regime for all electrons
        t0 = 1e-4 / (g0 * w) * P.MEC2_EV / 4
        ue = case["u"] * u.eV / u.cm**3
        if case["seed"] == "bb":
            seed = ["s", t0 / 3 / P.KB_EV * u.K, ue]
            U = case["u"]
            hi, lo = 30 * t0, 1e-4 * t0
        elif case["seed"] == "mono":
            seed = ["s", t0 * u.eV, ue]
            U = case["u"]
            hi, lo = t0, t0
        else:
            en = np.geomspace(t0 / 10, t0, 40)
            n = case["u"] * (en / t0) ** -1.7
            seed = ["s", en * u.eV, n / u.eV / u.cm**3]
            # exact integral of E n(E)
            a = 2 - 1.7
            U = case["u"] * t0**2 * (1 - 0.1**a) / a
            hi, lo = t0, t0 / 10
        pl = nm.PowerLaw(1e36 / u.eV, E0 * u.eV, case["alpha"])
        m = nm.InverseCompton(pl, seed_photon_fields=[seed], Eemin=E0 * u.eV,
                              Eemax=w * E0 * u.eV, nEed=300)
        e = np.geomspace(lo * 1e-3, 4.4 * (g0 * w) ** 2 * hi, 500)
        f = val(m.flux(e * u.eV, distance=0), F0, e.shape)
        L = np.trapezoid(f * e**2, np.log(e))
        gam = np.geomspace(g0, g0 * w, 3000)
        ne = 1e36 * P.MEC2_EV * (gam / g0) ** -case["alpha"]
        want = 4 / 3 * P.SIGT * P.C * U * np.trapezoid(ne * gam**3, np.log(gam))
        mon.close("thomson-power", L, want, rtol=0.03, msg="Thomson losses on " + case["seed"])
        mon.sample(regime="Thomson", power=L, expected=want)
    elif case["kind"] == "tab":
        # a Planck spectrum given as a table against the thermal field
        T = case["T"]
        t = P.KB_EV * T
        en = np.geomspace(1e-3 * t, 40 * t, 120)
        n = P.planck_n(en / P.MEC2_EV, t / P.MEC2_EV) / P.MEC2_EV
        dil = case["u"] / P.bb_density(T)
        if case["form"]:
            dens = n * dil / u.eV / u.cm**3
        else:
            dens = n * dil * en**2 * u.eV / u.cm**3
        pd = b.particle(case["p"])
        m = nm.InverseCompton(pd, seed_photon_fields=[
            ["tab", en * u.eV, dens], ["bb", T * u.K, case["u"] * u.eV / u.cm**3]], nEed=60)
        E = b.Q(case["E"])
        e = P.ev(E)
        a = val(m.flux(E, distance=0, seed="tab"), F0, E.shape)
        c = val(m.flux(E, distance=0, seed="bb"), F0, E.shape)
        # where the spectrum falls steeply the accuracy of the fit is lost
        big = (c * e**2 > 1e-3 * np.max(c * e**2)) & (e < 3e14)
        if c.max() == 0:
            return mon.mark_trivial()
        mon.close("tabulated=thermal", a, c, rtol=0.06, mask=big,
                  msg="tabulated and thermal Planck spectrum")
    else:
        # the isotropic field is the average of beams over directions
        pd = b.particle(case["p"])
        mu, wt = np.polynomial.legendre.leggauss(12)
        uq = case["u"] * u.eV / u.cm**3
        E = b.Q(case["E"])
        e = P.ev(E)
        fields = [["b%d" % i, case["T"] * u.K, uq, math.acos(x) * u.rad]
                  for i, x in enumerate(mu)]
        m = nm.InverseCompton(pd, seed_photon_fields=fields, nEed=60)
        iso = nm.InverseCompton(pd, seed_photon_fields=[["iso", case["T"] * u.K, uq]], nEed=60)
        # photon rates carry the (1 - cos theta) of the encounter
        avg = sum(val(m.flux(E, distance=0, seed=i), F0, E.shape) * w / 2
                  for i, w in enumerate(wt))
        c = val(iso.flux(E, distance=0), F0, E.shape)
        big = (c * e**2 > 1e-3 * np.max(c * e**2)) & (e < 3e14)
        if c.max() == 0:
            return mon.mark_trivial()
        mon.close("isotropic-average", avg, c, rtol=0.06, mask=big,
                  msg="average of beams over all angles")
