"""C08: pion decay spectra against Kafexhiu et al. (2014), and the look-up table."""
import math

import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random proton distributions, energy limits (below the production
threshold included), grid densities, target densities, the four high-energy
models, with and without nuclear enhancement and look-up table; look-up tables
generated for random energies. Oracles: an
independent scalar implementation of the published parametrisation on the
documented proton grid; agreement of the tabulated and direct calculations; exact
zero above the proton energy; irrelevance of protons below threshold. Non-trivial:
the spectrum is not identically zero."""
REQUIRED = ["reference", "table=direct", "no-table=direct", "above-maximum",
            "below-threshold", "nuclear-enhancement", "generated-table"]
F0 = "1/(s eV)"


def gen(rng, tier):
    n = 480 if tier == "quick" else 12000
    cases = []
    for i in range(n):
        s = b.gen_radiative(rng, "PionDecay")
        s["useLUT"] = False
        kind = ["ref", "ref", "lut", "nolut", "thr"][i % 5]
        if kind == "ref" and rng.random() < 0.2:
            s["Epmax"] = [sig(logu(rng, 3, 1e5)), "GeV"]
            s["Epmin"] = [sig(logu(rng, 1.22, 2.5)), "GeV"]
        if kind == "lut":
            s.pop("hiEmodel", None)
            s.pop("nuclear_enhancement", None)
            s["nEpd"] = rng.choice([50, 100])
        if kind == "nolut":
            if rng.random() < 0.5:
                s["hiEmodel"] = rng.choice(["Geant4", "SIBYLL", "QGSJET"])
            else:
                s["nuclear_enhancement"] = False
        cases.append({"kind": kind, "spec": s, "E": b.gen_energies(
            rng, "PionDecay", n=6 if kind == "ref" else 10, sort=False),
            "low": sig(logu(rng, 0.94, 1.2179)), "rs": rng.randrange(1 << 30)})
    for i in range(6 if tier == "quick" else 100):
        cases.append({"kind": "make", "rs": rng.randrange(1 << 30), "nuc": rng.choice([None, True, False]),
                      "models": rng.choice([None, "Geant4", "SIBYLL", ["QGSJET"], ["Pythia8", "Geant4"]]),
                      "units": [rng.choice(["GeV", "TeV", "eV", "erg"]) for _ in range(2)]})
    return cases


def run_make(case, mon):
    """Look-up tables of other energies, models and without nuclear enhancement"""
    import contextlib
    import io
    import os
    import shutil
    import tempfile

    import naima.radiative as R

    rng = np.random.RandomState(case["rs"])
    Ep = np.sort(10 ** rng.uniform(0.15, 6.5, rng.randint(5, 12)))
    Eg = np.sort(10 ** rng.uniform(-2, 5, rng.randint(5, 9)))
    tmp = tempfile.mkdtemp(prefix="c08")
    try:
        kw = {} if case["nuc"] is None else {"nuclear_enhancement": case["nuc"]}
        if case["models"] is not None:
            kw["hiEmodel"] = case["models"]
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            R.generate_lut_pp(Ep=(Ep * u.GeV).to(case["units"][0]), Eg=(Eg * u.GeV).to(case["units"][1]),
                              out_base=os.path.join(tmp, "lut_"), **kw)
        models = case["models"] or ["Geant4", "Pythia8", "SIBYLL", "QGSJET"]
        models = [models] if isinstance(models, str) else models
        nuc = case["nuc"] is not False
        names = {"lut_" + ("NucEnh_" if nuc else "") + m + ".npz": m for m in models}
        mon.check("generated-table", set(os.listdir(tmp)) == set(names), "files %s" % os.listdir(tmp))
        for name, model in names.items():
            lut = R.LookupTable(os.path.join(tmp, name))
            want = np.array([[P.diff_sigma(p, g, model, nuc) for p in Ep] for g in Eg])
            got = np.array([lut(Ep, g) for g in Eg])
            mon.close("generated-table", got, want, rtol=2e-5, atol=1e-9 * want.max(),
                      msg="table for %s, %s nuclear enhancement" % (model, "with" if nuc else "without"))
            mon.cls("model", "%s/%s" % (model, "nuc" if nuc else "pp"))
            mon.close("generated-table", [lut.xlim[0], lut.xlim[1], lut.ylim[0], lut.ylim[1]],
                      np.log10([Ep[0], Ep[-1], Eg[0], Eg[-1]]), rtol=1e-9, atol=1e-9, msg="limits of the table")
    finally:
        shutil.rmtree(tmp)


def run(case, mon):
    if case["kind"] == "make":
        mon.cls("kind", "make")
        return run_make(case, mon)
    spec = case["spec"]
    if P.ambiguous(spec):
        return mon.mark_trivial()
    kind = case["kind"]
    rng = np.random.RandomState(case["rs"])
    model, nuc = spec.get("hiEmodel", "Pythia8"), spec.get("nuclear_enhancement", True)
    mon.cls("model", "%s/%s" % (model, "nuc" if nuc else "pp"))
    mon.cls("kind", kind)
    E = b.Q(case["E"])
    e = P.ev(E)
    nh = b.Q(spec["nh"]).to("1/cm3").value
    lo, hi, nper = P.p_limits(spec)
    if kind == "ref":
        m = b.radiative(spec)
        want, fz = P.pion_decay(spec, e, nh, model, nuc)
        tol = fz + max(1e-280, 1e-40 * want.max())
        got = val(m.flux(E, distance=0), F0, E.shape)
        if not want.any():
            mon.mark_trivial()
        mon.close("reference", got, want, rtol=2e-5, atol=tol, msg="KATV14 spectrum")
        k = e**2 * P.ERG / (4 * math.pi * P.KPC_CM**2)
        mon.close("reference", val(m.sed(E), "erg/(s cm2)"), want * k, rtol=2e-5,
                  atol=tol * k, msg="SED")
        # cross section of protons of one energy: regimes of the parametrisation
        T = float(rng.choice([0.3, 0.5, 0.57, 0.9, 1.1, 1.9, 2.1, 3.9, 4.1, 4.9, 5.1, 19, 21,
                              49, 51, 99, 101, 150, 1e3, 1e5])) * rng.uniform(0.99, 1.01)
        E1 = P.MPC2_GEV + T
        import naima.models as nm

        s1 = {"type": "PionDecay", "particle": {"type": "PowerLaw", "amplitude": [1e36, "1/eV"],
                                                "e_0": [1.0, "TeV"], "alpha": 2.0},
              "Epmin": [E1, "GeV"], "Epmax": [E1 * 1.0005, "GeV"], "nEpd": 100}
        m1 = nm.PionDecay(b.particle(s1["particle"]), nuclear_enhancement=nuc, hiEmodel=model,
                          useLUT=False, Epmin=E1 * u.GeV, Epmax=E1 * 1.0005 * u.GeV)
        eg = P.pion_max(T)[1] * rng.uniform(0.001, 0.9, size=3) * 1e9
        want, _ = P.pion_decay(s1, eg, 1.0, model, nuc)
        got = val(m1.flux(eg * u.eV, distance=0), F0, 3)
        mon.cls("Tp-regime", "%.2g" % T)
        mon.close("reference", got, want, rtol=2e-4, atol=1e-9 * want.max(),
                  msg="nearly mono-energetic protons, Tp=%g GeV" % T)
        if nuc:
            s2 = dict(spec, nuclear_enhancement=False)
            pp = val(b.radiative(s2).flux(E, distance=0), F0, E.shape)
            en = val(b.radiative(spec).flux(E, distance=0), F0, E.shape)
            ok = pp > 1e-250
            r = en[ok] / pp[ok]
            mon.check("nuclear-enhancement", np.all((r > 1.3) & (r < 2.9)),
                      "nuclear enhancement factors %s" % r)
    elif kind == "lut":
        d = b.radiative(dict(spec, useLUT=False))
        scan = np.geomspace(3e7, hi * 1e9, 30)
        ref = val(d.flux(scan * u.eV, distance=0), F0)
        peak = np.max(ref * scan**2)
        f = val(d.flux(E, distance=0), F0, E.shape)
        m = b.radiative(dict(spec, useLUT=True))
        g = val(m.flux(E, distance=0), F0, E.shape)
        mon.check("table-in-use", bool(m.useLUT), "the packaged table was not used")
        big = f * e**2 > 1e-3 * peak
        if not big.any():
            mon.mark_trivial()
        mon.close("table=direct", g, f, rtol=0.02, mask=big, msg="tabulated spectrum")
        # outside of the limits of the table: the direct calculation
        e2 = np.array([1e5, 3e6, 9.9e6, 1.02e15, 5e15])
        mon.close("table-limits", val(m.flux(e2 * u.eV, distance=0), F0, 5),
                  val(d.flux(e2 * u.eV, distance=0), F0, 5), rtol=1e-6,
                  msg="photon energies outside of the table")
        # protons beyond the table
        big_p = dict(spec, Epmax=[100.0, "PeV"], Epmin=[2e7, "GeV"])
        a = val(b.radiative(dict(big_p, useLUT=True)).flux(E, distance=0), F0)
        c = val(b.radiative(dict(big_p, useLUT=False)).flux(E, distance=0), F0)
        mon.close("table-limits", a, c, rtol=1e-6, msg="protons beyond the table")
    elif kind == "nolut":
        # without a packaged table the direct calculation is used, with a warning
        m = b.radiative(dict(spec, useLUT=True))
        d = b.radiative(dict(spec, useLUT=False))
        want, fz = P.pion_decay(spec, e[:3], nh, model, nuc)
        got = val(m.flux(E, distance=0), F0, E.shape)
        mon.close("no-table=direct", got, val(d.flux(E, distance=0), F0, E.shape), rtol=1e-9,
                  msg="without a table for %s" % model)
        mon.close("reference", got[:3], want, rtol=2e-5, atol=fz + 1e-40 * want.max() + 1e-280,
                  msg="KATV14 spectrum")
        # one after another on the same instance
        m.useLUT = True
        m.nuclear_enhancement = True
        m.hiEmodel = "Pythia8"
        t = b.radiative(dict(spec, useLUT=True, nuclear_enhancement=True, hiEmodel="Pythia8"))
        mon.close("table=direct", val(m.flux(E, distance=0), F0), val(t.flux(E, distance=0), F0),
                  rtol=1e-12, msg="after enabling the table again")
    else:
        # protons below the threshold do not contribute
        m1 = b.radiative(dict(spec, Epmin=[P.P_TH + 1e-4, "GeV"], nEpd=100))
        lowE = case["low"]
        m2 = b.radiative(dict(spec, Epmin=[lowE, "GeV"], nEpd=100))
        sp2 = dict(spec, Epmin=[lowE, "GeV"], nEpd=100)
        if P.ambiguous(sp2):
            return mon.mark_trivial()
        a, c = (val(x.flux(E, distance=0), F0, E.shape) for x in (m1, m2))
        want, fz = P.pion_decay(sp2, e[:3], nh, model, nuc)
        mon.close("below-threshold", c[:3], want, rtol=2e-5,
                  atol=fz + 1e-40 * want.max() + 1e-280, msg="grid from %g GeV" % lowE)
        # the grids differ, hence only as accurate as the integration
        big = a * e**2 > 1e-2 * np.max(a * e**2)
        mon.close("below-threshold", c, a, rtol=0.12, mask=big,
                  msg="protons from %g GeV" % lowE)
        for t in (True, False):
            m3 = b.radiative(dict(spec, Epmin=[0.95, "GeV"], Epmax=[1.21, "GeV"], useLUT=t))
            z = val(m3.flux(E, distance=0), F0, E.shape)
            mon.check("below-threshold", np.all(z == 0),
                      "emission of protons below threshold: %s" % z)
    for lut in (False, True):
        m = b.radiative(dict(spec, useLUT=lut))
        ee = hi * 1e9 * np.array([1 + 1e-9, 1.2, 3, 50])
        z = val(m.flux(ee * u.eV, distance=0), F0, 4)
        mon.check("above-maximum", np.all(z == 0),
                  "photons above the maximum proton energy %g GeV: %s" % (hi, z))
    mon.sample(kind=kind, model=model, nuc=nuc, limits_GeV=[lo, hi])
