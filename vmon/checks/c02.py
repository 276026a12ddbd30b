"""C02: inverse Compton contributions of the seed photon fields."""
import numpy as np
from astropy import units as u

from .. import build as b
from ..core import logu, sig, val

RULE = """Random electron populations with one to five seed photon fields
(standard names, diluted and full black bodies, beams at an angle, mono-energetic
photons, tabulated spectra), also several that are identical. The contributions are read by name and by position,
as flux and SED, at several distances, interleaved with evaluations at other
energies and in random order, and compared with the total and with models that
have only that field. Non-trivial: at least two seed fields or one single-field
comparison."""
REQUIRED = ["sum-of-seeds", "single-field-model", "by-name=by-number", "reject-unknown",
            "standard-fields", "string-form", "unit"]


def gen(rng, tier):
    n = 250 if tier == "quick" else 6000
    cases = []
    for _ in range(n):
        m = b.gen_radiative(rng, "InverseCompton")
        m["nEed"] = rng.choice([10, 15, 30, 60])
        m["seed_photon_fields"] = b.gen_seeds(rng, nmax=5)
        own = [s for s in m["seed_photon_fields"] if not isinstance(s, str)]
        if own and rng.random() < 0.25:
            # two fields that differ in their name or direction only
            s = rng.choice(own)
            m["seed_photon_fields"].insert(rng.randrange(len(m["seed_photon_fields"]) + 1), ["twin"] + s[1:])
        if rng.random() < 0.15:
            m["seed_photon_fields"] = rng.choice(["CMB", "CMB-FIR", "NIR-CMB", "FIR-NIR-CMB"])
        cases.append({
            "spec": m,
            "E": b.gen_energies(rng, "InverseCompton", n=rng.choice([1, 3, 8])),
            "E2": b.gen_energies(rng, "InverseCompton", n=rng.choice([1, 3, 8])),
            "d": rng.choice([[0, "kpc"], [1, "kpc"], [sig(logu(rng, 1e-2, 1e6)), "kpc"], [700, "pc"], None]),
            "rs": rng.randrange(1 << 30),
        })
    return cases


def run(case, mon):
    rng = np.random.RandomState(case["rs"] % (1 << 31))
    spec = case["spec"]
    sf = spec["seed_photon_fields"]
    specs = sf.split("-") if isinstance(sf, str) else sf
    names = [b.seed_name(s) for s in specs]
    E, E2 = b.Q(case["E"]), b.Q(case["E2"])
    dkw = {} if case["d"] is None else {"distance": b.Q(case["d"])}
    dist0 = case["d"] is not None and case["d"][0] == 0
    m = b.radiative(spec)
    funit = "1/(s eV)" if dist0 else "1/(s cm2 eV)"
    sunit = "erg/s" if dist0 else "erg/(s cm2)"
    mon.cls("n_seeds", len(specs))
    mon.cls("twins", "twin" in names)
    for s in specs:
        mon.cls("seed", s if isinstance(s, str) else
                ("beam" if len(s) == 4 else "thermal" if s[1][1].endswith("K") else
                 "tabulated" if isinstance(s[1][0], list) else "mono"))
    # history before the observations
    if rng.rand() < 0.5:
        m.flux(E2, **dkw)
    got = {}
    order = [(i, meth, how) for i in range(len(names))
             for meth in ("flux", "sed") for how in (0, 1)]
    rng.shuffle(order)
    for i, meth, how in order:
        if rng.rand() < 0.3:
            m.flux(E2, **dkw)
        i, how = int(i), int(how)
        key = names[i] if how else i
        e = E
        r = rng.rand()
        if r < 0.15:
            e = {"energy": E}
        elif r < 0.3 and len(E) == 1:
            e = E[0]
        part = getattr(m, meth)(e, seed=key, **dkw)
        got[i, meth, how] = val(part, funit if meth == "flux" else sunit,
                                shape=E.shape, what="contribution of a seed")
        mon.check("unit", part.unit == getattr(m, meth)(e, **dkw).unit,
                  "the %s of a field is in %s, unlike the total" % (meth, part.unit))
    for meth, unit in (("flux", funit), ("sed", sunit)):
        tot = val(getattr(m, meth)(E, **dkw), unit, shape=E.shape)
        parts = [got[i, meth, 0] for i in range(len(names))]
        mon.close("sum-of-seeds", tot, np.sum(parts, axis=0), rtol=1e-9,
                  msg="total %s vs sum over %s" % (meth, names))
        for i in range(len(names)):
            mon.close("by-name=by-number", got[i, meth, 1], got[i, meth, 0], rtol=1e-12,
                      msg="%s of seed %s" % (meth, names[i]))
            one = b.radiative(dict(spec, seed_photon_fields=[specs[i]]))
            want = val(getattr(one, meth)(E, **dkw), unit, shape=E.shape)
            mon.close("single-field-model", got[i, meth, 0], want, rtol=1e-9,
                      msg="%s of seed %s alone" % (meth, names[i]))
    # order of the fields is irrelevant
    perm = [specs[k] for k in rng.permutation(len(specs))]
    mp = b.radiative(dict(spec, seed_photon_fields=perm))
    mon.close("sum-of-seeds", val(mp.flux(E, **dkw), funit), val(m.flux(E, **dkw), funit),
              rtol=1e-9, msg="permuted fields")
    k = int(rng.randint(len(names)))
    mon.close("by-name=by-number", val(mp.flux(E, seed=names[k], **dkw), funit),
              got[k, "flux", 0], rtol=1e-9, msg="by name after permutation")
    # unknown fields
    mon.raises("reject-unknown", ValueError, lambda: m.flux(E, seed="no such field", **dkw),
               "unknown seed name")
    mon.raises("reject-unknown", ValueError, lambda: m.flux(E, seed=len(names), **dkw),
               "seed number %d of %d" % (len(names), len(names)))
    mon.raises("reject-unknown", ValueError, lambda: m.sed(E, seed=len(names) + 3, **dkw),
               "seed number too large")
    # documented standard fields
    std = rng.choice(["CMB", "FIR", "NIR"])
    expl = {
        "CMB": ["CMB", 2.72548 * u.K, 0],
        "FIR": ["FIR", 30 * u.K, 0.5 * u.eV / u.cm**3],
        "NIR": ["NIR", 3000 * u.K, 1.0 * u.eV / u.cm**3],
    }[std]
    import naima.radiative as nr

    kw = {k: b.Q(v) for k, v in spec.items()
          if k not in ("type", "particle", "seed_photon_fields")}
    pd = b.particle(spec["particle"])
    a = nr.InverseCompton(pd, seed_photon_fields=[str(std)], **kw)
    c = nr.InverseCompton(pd, seed_photon_fields=[expl], **kw)
    mon.close("standard-fields", val(a.flux(E, **dkw), funit), val(c.flux(E, **dkw), funit),
              rtol=1e-9, msg="standard field " + str(std))
    st = rng.choice(["CMB-FIR", "CMB-NIR", "FIR-NIR-CMB", "NIR"])
    a = nr.InverseCompton(pd, seed_photon_fields=str(st), **kw)
    c = nr.InverseCompton(pd, seed_photon_fields=str(st).split("-"), **kw)
    mon.close("string-form", val(a.flux(E, **dkw), funit), val(c.flux(E, **dkw), funit),
              rtol=1e-12, msg="string form " + str(st))
    for bad in ("XYZ", "CMB-XYZ"):
        mon.raises("reject-unknown", TypeError,
                   lambda: nr.InverseCompton(pd, seed_photon_fields=bad, **kw), bad)
    mon.sample(fields=specs, d=case["d"])
