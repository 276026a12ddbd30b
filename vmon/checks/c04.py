"""C04: linearity in the populations and targets; finite, non-negative spectra."""
import copy
import random

import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val

RULE = """Random models of all radiative classes. The amplitude of the particles,
the target or photon density and the bremsstrahlung weights are scaled by random
factors on live and fresh models; two populations are added; a very wide range of
photon energies, including exact grid energies and kinematic limits, is scanned
for values that are not finite, negative, or non-zero where the process is
forbidden. Non-trivial: the model radiates at some energy of the case."""
REQUIRED = ["scale-amplitude", "scale-target", "superposition", "finite", "non-negative",
            "forbidden-is-zero", "zero-population", "weights"]
F0 = "1/(s eV)"
DENS = {"1/cm3": 1.0, "1/m3": 1e-6, "1/l": 1e-3}


def gen(rng, tier):
    n = 260 if tier == "quick" else 6000
    cases = []
    for i in range(n):
        kind = ["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay"][i % 4]
        if i % 26 == 5:
            kind = "PionDecayKelner06"
        m = b.gen_radiative(rng, kind)
        m2 = b.gen_particle(rng)
        if rng.random() < 0.3 and kind in ("InverseCompton", "Bremsstrahlung"):
            m["Eemin"] = rng.choice([[1.0, "MeV"], [0.6, "MeV"], [2.0, "MeV"], [100, "MeV"]])
            m["Eemax"] = rng.choice(
                [[210.0, "MeV"], [1.0, "GeV"], [100, "TeV"], [3, "PeV"]]
                if m["Eemin"][0] == 100 else
                [[10.0, "MeV"], [1.0, "GeV"], [100, "TeV"], [3, "PeV"]])
        cases.append({
            "spec": m, "p2": m2,
            "E": b.gen_energies(rng, kind, n=2 if "Kelner" in kind else 8),
            "k": sig(rng.choice([1e-6, 0.1, 0.5, 2, 7, 1e4]) * rng.uniform(0.5, 1.5)),
            "rs": rng.randrange(1 << 30),
        })
    return cases


def _flux(m, E, d=0):
    return val(m.flux(E, distance=0), F0, E.shape, "flux")


class Sum:
    """Sum of two populations, as a plain callable"""

    def __init__(self, a, c):
        self.a, self.c = a, c

    def __call__(self, e):
        return self.a(e) + self.c(e).to(self.a.amplitude.unit)


def run(case, mon):
    rng = np.random.RandomState(case["rs"])
    spec = case["spec"]
    kind = spec["type"]
    mon.cls("model", kind)
    mon.cls("particle", spec["particle"]["type"])
    E = b.Q(case["E"])
    k = case["k"]
    slow = "Kelner" in kind
    rt = 5e-3 if slow else 1e-9
    m = b.radiative(spec)
    f = _flux(m, E)
    lim = 1e-250
    ok = (f > lim) | (f == 0)
    if not np.any(f > lim):
        mon.mark_trivial()
    # amplitude: a fresh model, and the live one
    s2 = copy.deepcopy(spec)
    s2["particle"]["amplitude"][0] *= k
    mon.close("scale-amplitude", _flux(b.radiative(s2), E), f * k, rtol=rt, mask=ok,
              msg="amplitude times %g" % k)
    m.particle_distribution.amplitude = m.particle_distribution.amplitude * k
    mon.close("scale-amplitude", _flux(m, E), f * k, rtol=rt, mask=ok,
              msg="amplitude of a live model times %g" % k)
    m.particle_distribution.amplitude = 0 * m.particle_distribution.amplitude
    z = _flux(m, E)
    mon.check("zero-population", np.all(z == 0), "spectrum of no particles: %s" % z)
    if slow:
        # a population that ends below the transition energy
        p = dict(b.gen_particle(random.Random(case["rs"]), "ExponentialCutoffPowerLaw"), beta=2.0,
                 e_0=[1, "GeV"], e_cutoff=[sig(rng.uniform(0.3, 6)), "GeV"])
        z = _flux(b.radiative(dict(spec, particle=p)), np.array([0.05, 0.5, 5, 50, 500]) * u.GeV)
        mon.check("finite", np.all(np.isfinite(z)) and np.all(z >= 0), "cutoff at %s: %s" % (p["e_cutoff"], z))
    # targets
    m = b.radiative(spec)
    _flux(m, E)
    if kind == "Bremsstrahlung":
        m.n0 = m.n0 * k
    elif kind in ("PionDecay", "PionDecayKelner06"):
        m.nh = m.nh * k
    if kind in ("Bremsstrahlung", "PionDecay", "PionDecayKelner06"):
        mon.close("scale-target", _flux(m, E), f * k, rtol=1e-9, mask=ok,
                  msg="target density times %g" % k)
        m = b.radiative(dict(spec, **({"n0": [spec["n0"][0] * k, spec["n0"][1]]}
                                      if "n0" in spec else
                                      {"nh": [spec["nh"][0] * k, spec["nh"][1]]})))
        mon.close("scale-target", _flux(m, E), f * k, rtol=1e-9, mask=ok,
                  msg="target density times %g, new model" % k)
        # the same number of particles in other volumes
        key = "n0" if "n0" in spec else "nh"
        for un, vol in (("1/cm3", 1.0), ("1/m3", 1e-6), ("1/l", 1e-3)):
            m = b.radiative(dict(spec, **{key: [1.0, un]}))
            g = f * vol / (spec[key][0] * DENS[spec[key][1]])
            mon.close("scale-target", _flux(m, E), g, rtol=1e-9, mask=ok & ((g > lim) | (g == 0)),
                      msg="target density 1 " + un)
    if kind == "InverseCompton":
        sf = spec["seed_photon_fields"]
        if not isinstance(sf, str):
            new = []
            for s in sf:
                if not isinstance(s, str) and not b.blackbody(s):
                    v = s[2][0]
                    v = [x * k for x in v] if isinstance(v, list) else v * k
                    s = [s[0], s[1], [v, s[2][1]]] + s[3:]
                    one = b.radiative(dict(spec, seed_photon_fields=[s]))
                    want = val(b.radiative(spec).flux(E, distance=0, seed=s[0]), F0, E.shape)
                    mon.close("scale-target", _flux(one, E), k * want, rtol=1e-9,
                              mask=want > lim, msg="photon density times %g" % k)
                new.append(s)
    if kind == "Bremsstrahlung":
        ee = _flux(b.radiative(dict(spec, weight_ee=1.0, weight_ep=0.0)), E)
        ep = _flux(b.radiative(dict(spec, weight_ee=0.0, weight_ep=1.0)), E)
        for a, c in ((k, 0.0), (0.0, k), (k, 1.0), (0.3, k), (0.0, 0.0), (1, 1)):
            g = _flux(b.radiative(dict(spec, weight_ee=a, weight_ep=c)), E)
            mon.close("weights", g, a * ee + c * ep, rtol=1e-9, mask=ok,
                      msg="weights %g, %g" % (a, c))
    # superposition of populations, to the accuracy of the integration
    if not slow:
        grid = {"nEpd": 100} if kind == "PionDecay" else {"nEed": 100}
        s1 = dict(spec, **grid)
        p1, p2 = b.particle(spec["particle"]), b.particle(case["p2"])
        # comparable populations
        pivot = 1 * u.TeV
        p2.amplitude = p2.amplitude * float(
            (p1(pivot) / p2(pivot)).to("").value or 1.0
        ) * rng.choice([0.1, 1, 10])
        if np.isfinite(p2.amplitude.value) and p2.amplitude.value > 0:
            f1 = _flux(b.radiative(dict(s1, particle=p1)), E)
            f2 = _flux(b.radiative(dict(s1, particle=p2)), E)
            g = _flux(b.radiative(dict(s1, particle=Sum(p1, p2))), E)
            tot = f1 + f2
            big = tot > max(lim, 1e-30 * tot.max())
            mon.close("superposition", g, tot, rtol=0.03, mask=big & np.isfinite(tot),
                      msg="sum of two populations")
    # a wide scan for values that make no sense
    edges = []
    m = b.radiative(spec)
    if kind in ("InverseCompton", "Bremsstrahlung", "Synchrotron"):
        lo, hi = m.Eemin.to("eV").value, m.Eemax.to("eV").value
        ng = max(10, int(m.nEed * np.log10(hi / lo)))
        grid = np.geomspace(lo, hi, ng)
        edges = [lo, hi, 510998.95, 2e6] + list(grid[rng.randint(ng, size=6)])
        top = hi
    elif kind == "PionDecay":
        lo, hi = m.Epmin.to("eV").value, m.Epmax.to("eV").value
        edges = [lo, hi, 1.22e9, 67.4883e6, 134.9766e6, 1e7, 1e15, 9.999e6]
        top = hi
    else:
        top = np.inf
    if slow:
        scan = np.array([1e7, 0.0999e12, 0.1e12, 1e12, 1e15])
    else:
        scan = np.concatenate([np.geomspace(1e-9, 1e20, 30), edges,
                               np.array(edges) * (1 + 1e-9), np.array(edges) * (1 - 1e-9),
                               10 ** rng.uniform(5, 16, size=30)])
    g = _flux(m, scan * u.eV)
    bad = ~np.isfinite(g)
    mon.check("finite", not bad.any(), "not finite at %s eV" % scan[bad][:5])
    mon.seen("finite", len(scan) - 1)
    mon.check("non-negative", not np.any(g < 0),
              "negative at %s eV: %s" % (scan[g < 0][:5], g[g < 0][:5]))
    mon.seen("non-negative", len(scan) - 1)
    if kind in ("InverseCompton", "Bremsstrahlung", "PionDecay"):
        above = scan > top * (1 + 1e-12)
        mon.check("forbidden-is-zero", np.all(g[above] == 0),
                  "radiates above the maximum particle energy %g eV: %s at %s eV"
                  % (top, g[above][g[above] != 0][:4], scan[above][g[above] != 0][:4]))
        mon.seen("forbidden-is-zero", int(above.sum()))
    one = _flux(m, scan[3:4] * u.eV)
    mon.close("non-negative", one[0], g[3], rtol=1e-9, msg="scan against single energy")
    mon.sample(model=kind, factor=k, scanned=len(scan))
