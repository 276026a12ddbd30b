"""C13: energy contents of the particle populations, and normalisation to them."""
import math

import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val
from ..refs import physics as P

RULE = """Random electron and proton models with random grids and energy limits in
random units. Oracles: the exact integral of the particle distribution (closed
form for power laws, dense quadrature otherwise) and the piecewise power-law rule
on the documented grid; agreement of the property and of the method with default,
partial and explicit limits; additivity over adjacent ranges; after a
normalisation over random limits the energy content over the same limits is the
requested one, the spectrum scales by the same factor, and no other model, nor the
Quantity the amplitude was given as, changes. Non-trivial: the energy content is
not zero."""
REQUIRED = ["quadrature", "grid-rule", "defaults", "additive", "normalised",
            "flux-follows", "others-unchanged", "live-parameters", "named-amplitude", "invalid"]
EU = ["eV", "GeV", "TeV", "erg", "MeV"]


def gen(rng, tier):
    n = 400 if tier == "quick" else 20000
    out = []
    for i in range(n):
        kind = ["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay"][i % 4]
        s = b.gen_radiative(rng, kind, kinds=["bb", "mono"])
        if kind == "InverseCompton":
            s["seed_photon_fields"] = ["CMB"]
        if kind == "PionDecay":
            s["useLUT"] = False
            lo0, hi0 = P.p_limits(s)[:2]
            lo0, hi0 = lo0 * 1e9, hi0 * 1e9
        else:
            lo0, hi0 = P.el_limits(s)[:2]
        if hi0 < 30 * lo0:
            continue
        a = logu(rng, lo0 * 0.5, hi0 / 10)
        c = logu(rng, a * 3, hi0 * 2)
        un = [rng.choice(EU) for _ in range(3)]
        out.append({"spec": s,
                    "lo": [sig(a * u.eV.to(un[0]), 9), un[0]],
                    "hi": [sig(c * u.eV.to(un[1]), 9), un[1]],
                    "W": [sig(logu(rng, 1e40, 1e52) * u.erg.to(un[2])), un[2]],
                    "rs": rng.randrange(1 << 30)})
    return out


def _quad(spec, lo, hi):
    """erg: dense quadrature in pieces between breaks"""
    p = spec["particle"]
    cuts = [lo, hi]
    if "e_break" in p:
        eb = float(P.ev(b.Q(p["e_break"])))
        if lo < eb < hi:
            cuts = [lo, eb, hi]
    tot = 0.0
    for a, c in zip(cuts[:-1], cuts[1:]):
        n = 24
        ed = np.linspace(math.log(a), math.log(c), max(3, int(math.log(c / a) * 6)))
        xg, wg = np.polynomial.legendre.leggauss(n)
        for l1, l2 in zip(ed[:-1], ed[1:]):
            x = np.exp((l1 + l2) / 2 + xg * (l2 - l1) / 2)
            tot += np.sum(wg * P.particle_per_ev(p, x) * x * x) * (l2 - l1) / 2
    return tot * P.ERG


class Named:
    """A user-defined distribution with its own name for the amplitude"""

    def __init__(self, norm, pl):
        self.norm, self.pl = norm, pl

    def __call__(self, e):
        return self.norm * self.pl(e)


def run(case, mon):
    spec = case["spec"]
    rng = np.random.RandomState(case["rs"])
    e_like = spec["type"] != "PionDecay"
    X = "e" if e_like else "p"
    kmin, kmax = "E%smin" % X, "E%smax" % X
    mon.cls("type", spec["type"])
    mon.cls("particle", spec["particle"]["type"])
    if e_like:
        lo, hi, nper = P.el_limits(spec)
    else:
        lo, hi, nper = P.p_limits(spec)
        lo, hi = lo * 1e9, hi * 1e9
    m = b.radiative(spec)

    def W(mm, **k):
        r = mm.compute_We(**k) if e_like else mm.compute_Wp(**k)
        return float(val(r, "erg", ()))

    def Wprop(mm):
        return float(val(mm.We if e_like else mm.Wp, "erg", ()))

    def grid(lo, hi, sp=spec):
        """allowed range of the documented rule: the number of points may be
        affected by rounding"""
        out = []
        for d in (-1e-9, 1e-9):
            if e_like:
                l1, l2 = math.log10(lo / P.MEC2_EV), math.log10(hi / P.MEC2_EV)
                g = np.logspace(l1, l2, P.ngrid(nper, (l2 - l1) * (1 + d))) * P.MEC2_EV
            else:
                l1, l2 = math.log10(lo), math.log10(hi)
                g = np.logspace(l1, l2, P.ngrid(nper, (l2 - l1) * (1 + d)))
            out.append(P.loglog(P.particle_per_ev(sp["particle"], g) * g, g) * P.ERG)
        return min(out), max(out)

    def compare(got, lo, hi, what):
        a, c = grid(lo, hi)
        mon.check("grid-rule", a * (1 - 1e-6) - 1e-250 <= got <= c * (1 + 1e-6) + 1e-250,
                  "%s: %r outside of %r" % (what, got, (a, c)), spec=spec)
        q = _quad(spec, lo, hi)
        if spec["particle"]["type"] == "PowerLaw":
            al = spec["particle"]["alpha"]
            e0 = float(P.ev(b.Q(spec["particle"]["e_0"])))
            A = b.Q(spec["particle"]["amplitude"]).to("1/eV").value
            if abs(al - 2) > 1e-3:
                q = A * e0**2 * ((hi / e0) ** (2 - al) - (lo / e0) ** (2 - al)) / (2 - al) * P.ERG
            tol = 1e-6
        else:
            # error of the piecewise power law: curvature of the logarithm
            tol = 0.02 + 30.0 / nper**2 + 1.0 / nper
            c = spec["particle"].get("e_cutoff")
            if c is not None and float(P.ev(b.Q(c))) < hi:
                tol += 8.0 / nper
        mon.close("quadrature", got, q, rtol=tol, atol=1e-250, msg=what + " (exact integral)")
        return q

    got = W(m)
    compare(got, lo, hi, "energy content")
    if got == 0:
        mon.mark_trivial()
    mon.close("defaults", Wprop(m), got, rtol=1e-12, msg="property and method")
    q = {kmin: (lo * u.eV).to("GeV"), kmax: (hi * u.eV).to("TeV")}
    if not P.ambiguous(spec):
        mon.close("defaults", W(m, **{kmin: getattr(m, kmin), kmax: getattr(m, kmax)}), got,
                  rtol=1e-9, msg="explicit limits")
    a, c = b.Q(case["lo"]), b.Q(case["hi"])
    av, cv = float(P.ev(a)), float(P.ev(c))
    compare(W(m, **{kmin: a, kmax: c}), av, cv, "limits")
    if av < hi / 3:
        compare(W(m, **{kmin: a}), av, hi, "lower limit only")
    if cv > lo * 3:
        compare(W(m, **{kmax: c}), lo, cv, "upper limit only")
    if cv > 9 * av:
        mid = math.sqrt(av * cv) * u.eV
        tot = W(m, **{kmin: a, kmax: c})
        parts = W(m, **{kmin: a, kmax: mid}) + W(m, **{kmin: mid, kmax: c})
        pl = spec["particle"]["type"] == "PowerLaw"
        mon.close("additive", parts, tot, rtol=1e-6 if pl else 0.05 + 10.0 / nper, atol=1e-250,
                  msg="adjacent ranges")
    else:
        mon.seen("additive", 0)
    # what was asked for is not what the model radiates with
    mon.close("defaults", [float(P.ev(getattr(m, kmin))), float(P.ev(getattr(m, kmax)))],
              [lo, hi], rtol=1e-9, msg="limits of the model")
    # normalisation; another population is built from the same Quantity
    A = b.Q(spec["particle"]["amplitude"])
    other = b.radiative(dict(spec))
    other.particle_distribution.amplitude = A
    m.particle_distribution.amplitude = A
    E = b.Q(b.gen_energies(__import__("random").Random(case["rs"]), spec["type"], n=4))
    f0 = val(m.flux(E), "1/(s cm2 eV)")
    target = b.Q(case["W"])
    tv = float(target.to("erg").value)
    sets = [{}, {kmin: a, kmax: c}, {kmin: a}, {kmax: c}]
    k = sets[rng.randint(4)]
    if (list(k) == [kmin] and av > hi / 3) or (list(k) == [kmax] and cv < lo * 3):
        k = {}
    mon.cls("limits", sorted(k))
    w0 = W(m, **k)
    name = {"amplitude_name": "amplitude"} if rng.rand() < 0.4 else {}
    setter = m.set_We if e_like else m.set_Wp
    if w0 > 1e-200:
        setter(target, **k, **name)
        mon.close("normalised", W(m, **k), tv, rtol=1e-9, msg="requested energy content")
        f1 = val(m.flux(E), "1/(s cm2 eV)")
        mon.close("flux-follows", f1, f0 * (tv / w0), rtol=1e-7,
                  atol=1e-300 + 1e-40 * np.abs(f1).max(), msg="spectrum", mask=f0 > 1e-250)
        amp = m.particle_distribution.amplitude
        mon.close("normalised", val(amp, "1/eV", ()), val(b.Q(spec["particle"]["amplitude"]), "1/eV")
                  * tv / w0, rtol=1e-9, msg="amplitude")
        mon.close("others-unchanged", val(A, "1/eV"),
                  val(b.Q(spec["particle"]["amplitude"]), "1/eV"), rtol=0, msg="caller's amplitude")
        mon.close("others-unchanged", val(other.particle_distribution.amplitude, "1/eV"),
                  val(A, "1/eV"), rtol=0, msg="another population")
        mon.close("others-unchanged", val(other.flux(E), "1/(s cm2 eV)"), f0, rtol=1e-12,
                  msg="another model")
        mon.close("others-unchanged", val(target, "erg"), tv, rtol=0, msg="caller's target")
        setter(2 * target, **k, **name)
        mon.close("normalised", W(m, **k), 2 * tv, rtol=1e-9, msg="normalised again")
    # live parameters
    m = b.radiative(spec)
    setattr(m, kmin, (3 * lo * u.eV).to(EU[rng.randint(5)]))
    setattr(m, kmax, (hi / 3 * u.eV).to(EU[rng.randint(5)]))
    g = grid(3 * lo, hi / 3)
    w = W(m)
    mon.check("live-parameters", g[0] * (1 - 1e-6) - 1e-250 <= w <= g[1] * (1 + 1e-6) + 1e-250,
              "after changing the limits: %r, expected %r" % (w, g), spec=spec)
    mon.close("live-parameters", Wprop(m), w, rtol=1e-9, msg="property after changing the limits")
    # user-defined populations
    import naima.radiative as nr

    pl = b.particle(spec["particle"])
    d = Named(2.5, pl)
    cls = getattr(nr, spec["type"])
    kw = {kk: b.Q(spec[kk]) for kk in (kmin, kmax) if kk in spec}
    um = cls(d, **kw)
    w1 = W(um)
    if w1 > 1e-200:
        before = d.norm
        (um.set_We if e_like else um.set_Wp)(target, amplitude_name="norm")
        mon.close("named-amplitude", W(um), tv, rtol=1e-9, msg="named amplitude")
        mon.close("named-amplitude", val(d.norm), before * tv / w1, rtol=1e-9, msg="named amplitude")
        mon.close("others-unchanged", val(pl.amplitude, "1/eV"),
                  val(b.Q(spec["particle"]["amplitude"]), "1/eV"), rtol=0, msg="inner amplitude")
    nope = cls(lambda e: pl(e), **kw)
    (nope.set_We if e_like else nope.set_Wp)(target)  # reports, does nothing
    mon.close("named-amplitude", W(nope), W(cls(pl, **kw)), rtol=1e-9, msg="no amplitude to set")
    mon.raises("invalid", (TypeError,), lambda: setter(3 * u.s), "energy content in seconds")
    mon.raises("invalid", (TypeError,), lambda: setter(1e48), "energy content without unit")
    mon.sample(type=spec["type"], W=got, limits=k and sorted(k), target=tv)
