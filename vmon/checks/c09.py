"""C09: the Kelner et al. (2006) pion decay model."""
import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random proton distributions, target densities and transition energies;
photon energies on both sides of the transition, evaluated one at a time,
together, and in any order. Oracles: an independent Gauss-Legendre integration of
Eqs. 72 and 78; continuity of the two regimes at the transition; total proton
energy by quadrature. Non-trivial: every case evaluates at least one energy in each
regime or an energy content."""
REQUIRED = ["full-calculation", "delta-approximation", "continuity", "proton-energy"]
F0 = "1/(s eV)"


def gen(rng, tier):
    n = 56 if tier == "quick" else 1200
    cases = []
    for i in range(n):
        s = b.gen_radiative(rng, "PionDecayKelner06")
        p = b.gen_particle(rng, rng.choice(["PowerLaw", "ExponentialCutoffPowerLaw",
                                            "ExponentialCutoffPowerLaw", "BrokenPowerLaw"]),
                           lo=1e11, hi=1e15)
        for k in ("alpha", "alpha_1", "alpha_2"):
            if k in p:
                p[k] = round(rng.uniform(1.8, 2.9), 3)
        if "e_cutoff" in p:
            p["e_cutoff"] = [sig(logu(rng, 3, 1e3)), "TeV"]
            p["beta"] = rng.choice([1.0, 0.5, 2.0])
        s["particle"] = p
        et = rng.choice([None, None, [50, "GeV"], [sig(logu(rng, 0.03, 1)), "TeV"]])
        if et:
            s["Etrans"] = et
        t = 1e11 if not et else et[0] * (1e9 if et[1] == "GeV" else 1e12)
        e = [sig(logu(rng, 1e8, t * 0.99)), sig(logu(rng, t * 1.01, 3e13))]
        if rng.random() < 0.5:
            e.append(t)
        rng.shuffle(e)
        cases.append({"spec": s, "E": [e, "eV"], "t": t})
    return cases


def run(case, mon):
    spec = case["spec"]
    mon.cls("particle", spec["particle"]["type"])
    mon.cls("Etrans", case["t"])
    E = b.Q(case["E"])
    e = P.ev(E)
    nh = b.Q(spec["nh"]).to("1/cm3").value
    J = lambda E_TeV: float(P.particle_per_ev(spec["particle"], E_TeV * 1e12)) * 1e12  # noqa: E731
    m = b.radiative(spec)
    got = val(m.flux(E, distance=0), F0, E.shape)
    want = P.kelner06(J, e, nh, case["t"] / 1e12)
    hi = e >= case["t"]
    err = np.array([1.5 * P.k06_quad_error(J, max(x, case["t"]) / 1e12) for x in e])
    mon.close("full-calculation", got[hi], want[hi], rtol=6e-3, atol=(err * want)[hi], msg="Eq. 72 at %s eV" % e[hi])
    mon.close("delta-approximation", got[~hi], want[~hi], rtol=1.2e-2, atol=(err * want)[~hi],
              msg="Eq. 78 at %s eV" % e[~hi])
    t = case["t"]
    f = val(m.flux([t * (1 - 1e-6), t * (1 + 1e-6)] * u.eV, distance=0), F0, 2)
    mon.close("continuity", f[0], f[1], rtol=6e-3, msg="at the transition energy")
    k = int(np.argmin(e))
    alone = val(b.radiative(spec).flux(E[k : k + 1], distance=0), F0, 1)
    mon.close("delta-approximation", alone[0], got[k], rtol=3e-3, msg="low energy alone")
    x = np.append(np.geomspace(1.22e-3, 1e7, 4000), np.geomspace(1e7, 1e37, 1500)[1:])
    W = np.trapezoid(np.array([J(v) for v in x]) * x * x, np.log(x))
    spl = [spec["particle"].get(a) for a in ("alpha", "alpha_2")]
    if all(v is None or v > 2.2 for v in spl) or "e_cutoff" in spec["particle"]:
        w = val(m.Wp, "erg", ())
        mon.close("proton-energy", w, W * 1e12 * P.ERG, rtol=2e-3, msg="Wp")
    else:
        mon.seen("proton-energy", 0)
    mon.sample(E_eV=list(e), flux=list(got), reference=list(want))
