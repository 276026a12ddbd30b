"""C31: first estimates from data: magnetic field and bin edges."""
import numpy as np
from astropy import units as u

from .. import build as B
from ..core import logu, sig, val
from ..refs import data as D

RULE = """Random pairs of X-ray and gamma-ray tables in any documented form and unit, as
fluxes or as luminosities, differential or SED, with random photon energy densities.
Oracles: an independent integral of the spectra between the points, known by
construction, and the formula B2/8pi = u L_X/L_gamma; the same content in another form;
scaling with the flux and with the energy density; tables of synchrotron and Thomson
inverse Compton spectra of one population give the field that was used. Bin edges of
random energies (any order, groups, single points): half way in the geometric sense, so
that neighbouring bins touch, in any unit. Non-trivial: every case."""
REQUIRED = ["formula", "same-content", "scaling", "physical", "edges", "touch", "edge-units"]
CASE_LIMIT = 100


def gen(rng, tier):
    n = {"quick": 300, "thorough": 8000}[tier]
    out = []
    for i in range(n):
        k = ["B", "B", "edges", "edges"][i % 4] if i % 25 else "phys"
        c = {"k": k, "rs": rng.randrange(1 << 30)}
        if k == "B":
            fam = rng.choice([["flux", "differential flux"], ["power", "differential power"]])
            c["t"] = [D.gen_table(rng, 0, fam, erange=(1e2, 1e6)), D.gen_table(rng, 0, fam, erange=(1e8, 1e14))]
            c["t2"] = [dict(D.gen_table(rng, 0, [rng.choice(fam)], npt=2)) for _ in range(2)]
            c["u"] = [sig(logu(rng, 1e-3, 1e3)), rng.choice(["eV/cm3", "erg/cm3", "J/m3", "keV/m3"])]
            c["f"] = sig(logu(rng, 1e-6, 1e6))
        elif k == "edges":
            n = rng.choice([1, 2, 3, 5, 20])
            c["e"] = [sig(logu(rng, 1e-3, 1e12), 7) for _ in range(n)]
            c["u"] = rng.choice(B.EUNITS)
            c["g"] = [rng.choice([0, 0, 1, 4]) for _ in range(n)] if rng.random() < 0.5 else None
        else:
            c.update(B=sig(logu(rng, 0.5, 300)), alpha=round(rng.uniform(1.6, 2.4), 2), T=sig(logu(rng, 3, 30)),
                     un=sig(logu(rng, 0.1, 10)), ec=sig(logu(rng, 0.03, 0.3)), lum=rng.random() < 0.3,
                     sed=rng.random() < 0.5)
        out.append(c)
    return out


def integral(e, f):
    """Integral of a function that is a power law between points"""
    tot = 0.0
    for a, b, x, y in zip(e[:-1], e[1:], f[:-1], f[1:]):
        L = np.log(b / a)
        k = np.log(y / x) / L + 1
        tot += x * a * (np.expm1(k * L) / k if abs(k) > 1e-9 else L)
    return tot


def run(case, mon):
    mon.cls("kind", case["k"])
    globals()["run_" + case["k"]](case, mon)


def form(s, s2):
    """The spectrum of s in the form of s2"""
    diff, diff2 = s["kind"].startswith("diff"), s2["kind"].startswith("diff")
    e = np.array(s["e"])
    k = 1.0 if diff == diff2 else (e**2 if diff else e**-2)
    out = dict(s, kind=s2["kind"], unit=s2["unit"], eunit=s2["eunit"], em=s2["em"], ulf="none", flux_ul=False,
               ul=[False] * len(e), cl=None, group=None, mixed=s2["mixed"], q=not s["q"], sym=False)
    for c in ("flux", "lo", "hi"):
        out[c] = (np.array(s[c]) * k).tolist()
    if out["em"] in ("width", "error"):
        out["ehi"] = out["elo"]
    out["order"] = list(range(len(e)))[::-1]
    return out


def run_B(case, mon):
    import naima

    ss = case["t"]
    L = []
    for s in ss:
        r, _ = D.rows([s], False)
        L.append(integral(r["energy"], r["flux"] * r["energy"]))
    uph = (case["u"][0] * u.Unit(case["u"][1])).to("erg/cm3").value
    want = np.sqrt(L[0] / L[1] * 8 * np.pi * uph) * 1e6
    t = [D.to_table(s, case["rs"]) for s in ss]
    ud = case["u"][0] * u.Unit(case["u"][1])
    got = naima.estimate_B(t[0], t[1], photon_energy_density=ud)
    mon.close("formula", val(got, "uG", ()), want, rtol=1e-6, msg="magnetic field of random tables")
    mon.close("formula", val(naima.estimate_B(t[0], t[1]), "uG", ()),
              want * np.sqrt((0.261 * u.eV / u.cm**3).to("erg/cm3").value / uph), rtol=1e-6, msg="default photon density")
    t2 = [D.to_table(form(s, x), case["rs"] + 1) for s, x in zip(ss, case["t2"])]
    mon.close("same-content", val(naima.estimate_B(t2[0], t2[1], photon_energy_density=ud), "uG", ()), want, rtol=1e-6,
              msg="the same spectra in another form")
    mon.close("same-content", val(naima.estimate_B(t2[0], t[1], photon_energy_density=ud), "uG", ()), want, rtol=1e-6,
              msg="one of the spectra in another form")
    s3 = dict(ss[0], flux=[x * case["f"] for x in ss[0]["flux"]])
    mon.close("scaling", val(naima.estimate_B(D.to_table(s3, case["rs"]), t[1], photon_energy_density=ud), "uG", ()),
              want * case["f"] ** 0.5, rtol=1e-6, msg="brighter synchrotron")
    mon.close("scaling", val(naima.estimate_B(t[1], t[0], photon_energy_density=ud), "uG", ()) * want / 1e12,
              8 * np.pi * uph, rtol=1e-6, msg="reversed")


def run_edges(case, mon):
    from naima.utils import generate_energy_edges

    e = np.array(case["e"])
    if len(set(e.tolist())) < len(e):
        return mon.mark_trivial()
    g = case["g"]
    want = D.edges(e, g if g is not None else [0] * len(e))
    E = (e * u.eV).to(case["u"])
    got = generate_energy_edges(E, groups=None if g is None else np.array(g))
    lo, hi = (val(got[i], "eV", (len(e),)) for i in (0, 1))
    mon.close("edges", lo, want[0], rtol=1e-8, atol=1e-9 * e, msg="lower")
    mon.close("edges", hi, want[1], rtol=1e-8, atol=1e-9 * e, msg="upper")
    mon.check("edge-units", got[0].unit.is_equivalent("eV") and got[1].unit.is_equivalent("eV"), "unit %s" % got[0].unit)
    for k in set(g or [0]):
        i = [j for j in np.argsort(e) if (g or [0] * len(e))[j] == k]
        if len(i) > 1:
            mon.close("touch", (e + hi)[i[:-1]], (e - lo)[i[1:]], rtol=1e-9, atol=1e-14 * e[i[1:]], msg="neighbouring bins touch")
            mon.check("touch", np.all(lo > -1e-12 * e) and np.all(hi > -1e-12 * e) and np.all(lo < e), "bins contain their energy")


def run_phys(case, mon):
    import naima
    from naima.models import ExponentialCutoffPowerLaw
    from naima.radiative import InverseCompton, Synchrotron

    pd = ExponentialCutoffPowerLaw(1e36 / u.eV, 1 * u.TeV, case["alpha"], case["ec"] * u.TeV)
    k = dict(Eemin=1 * u.GeV, Eemax=100 * u.TeV, nEed=30)
    s = Synchrotron(pd, B=case["B"] * u.uG, **k)
    ud = case["un"] * u.eV / u.cm**3
    ic = InverseCompton(pd, seed_photon_fields=[["x", case["T"] * u.K, ud]], **k)
    d = 0 if case["lum"] else 1 * u.kpc
    out = []
    for m, e in ((s, np.geomspace(1e-9, 1e6, 200)), (ic, np.geomspace(1e-3, 1e14, 200))):
        E = e * u.eV
        f = m.sed(E, distance=d) if case["sed"] else m.flux(E, distance=d)
        ok = f.value > f.value.max() * 1e-200
        out.append(naima.build_data_table(E[ok], f[ok], flux_error=0.1 * f[ok]))
    got = val(naima.estimate_B(out[0], out[1], photon_energy_density=ud), "uG", ())
    # Klein-Nishina losses reduce the inverse Compton luminosity a little
    gam = 5 * case["ec"] * 1e12 / 511e3
    kn = 4 * gam * 2.7 * case["T"] * 8.6e-5 / 511e3
    mon.check("physical", abs(np.log(got / case["B"])) < 0.01 + 0.6 * kn, "B is %.4g uG instead of %.4g (KN %.2g)"
              % (got, case["B"], kn))
