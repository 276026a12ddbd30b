"""Case-to-object builders, and random generation of (JSON) model specs."""
import numpy as np
from astropy import units as u

from .core import logu, sig

PARTICLES = {
    "PowerLaw": ["amplitude", "e_0", "alpha"],
    "ExponentialCutoffPowerLaw": ["amplitude", "e_0", "alpha", "e_cutoff", "beta"],
    "BrokenPowerLaw": ["amplitude", "e_0", "e_break", "alpha_1", "alpha_2"],
    "ExponentialCutoffBrokenPowerLaw": [
        "amplitude", "e_0", "e_break", "alpha_1", "alpha_2", "e_cutoff", "beta",
    ],
    "LogParabola": ["amplitude", "e_0", "alpha", "beta"],
}
EUNITS = ["eV", "keV", "MeV", "GeV", "TeV", "PeV", "erg", "J"]


def Q(x):
    """[value(s), unit] -> Quantity; anything else is returned unchanged."""
    if isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[1], str):
        return u.Quantity(np.array(x[0], dtype=float), x[1]) if isinstance(
            x[0], (list, tuple)
        ) else float(x[0]) * u.Unit(x[1])
    return x


def particle(spec):
    import naima.models as nm

    spec = dict(spec)
    cls = getattr(nm, spec.pop("type"))
    return cls(**{k: Q(v) for k, v in spec.items()})


def neat(rng, x, p=0.25):
    """`x`, sometimes rounded to a power of ten or to one digit"""
    r = rng.random()
    if r > p:
        return sig(x)
    return sig(10.0 ** np.floor(np.log10(x)), 1) if r < p / 2 else sig(x, 1)


def gen_particle(rng, kind=None, amp=(1e33, 1e38), lo=1e9, hi=1e14, unit=None):
    """A random particle distribution spec (energies in eV between lo and hi)."""
    kind = kind or rng.choice(sorted(PARTICLES))
    aunit = unit or rng.choice(["1/eV", "1/eV", "1/TeV", "1/erg", "1/GeV"])
    a = logu(rng, *amp) * u.Unit("1/eV").to(aunit)

    def ene(lo=lo, hi=hi):
        un = rng.choice(["eV", "GeV", "TeV", "erg", "MeV"])
        return [neat(rng, logu(rng, lo, hi) * u.eV.to(un)), un]

    spec = {"type": kind, "amplitude": [neat(rng, a), aunit], "e_0": ene()}
    if "alpha" in PARTICLES[kind]:
        spec["alpha"] = round(rng.uniform(1.2, 3.6), 3)
    if "alpha_1" in PARTICLES[kind]:
        spec["alpha_1"] = round(rng.uniform(0.8, 2.6), 3)
        spec["alpha_2"] = round(rng.uniform(2.0, 4.2), 3)
        spec["e_break"] = ene(lo * 30, hi / 10)
    if "e_cutoff" in PARTICLES[kind]:
        spec["e_cutoff"] = ene(hi / 100, hi * 10)
        spec["beta"] = rng.choice([1.0, 1.0, 2.0, 0.5, round(rng.uniform(0.4, 2.5), 3)])
    if kind == "LogParabola":
        spec["alpha"] = round(rng.uniform(1.5, 2.8), 3)
        spec["beta"] = round(rng.uniform(-0.02, 0.3), 3)
    return spec


PARAM_UNITS = [EUNITS, ["K", "mK", "uK", "kK", "MK"], ["deg", "rad", "arcsec", "hourangle", "mrad"],
               ["eV/cm3", "erg/cm3", "J/m3", "keV/m3", "erg/um3", "J/um3", "eV/km3", "TeV/pc3", "Pa"],
               ["1/cm3", "1/m3", "1/l", "1/km3", "1/um3", "1/pc3"],
               ["G", "uG", "T", "nT", "mT", "kG"],
               ["1/eV", "1/TeV", "1/erg", "1/J", "1/PeV", "1/keV"],
               ["1/(eV cm3)", "1/(erg cm3)", "1/(keV m3)", "1/(J um3)", "1/(PeV pc3)"]]


def is_quantity(x):
    """Is this [value(s), unit]?"""
    if not (isinstance(x, list) and len(x) == 2 and isinstance(x[1], str)):
        return False
    v = x[0] if isinstance(x[0], list) else [x[0]]
    return all(isinstance(y, (int, float)) for y in v)


def reunit(rng, spec):
    """The same spec with its quantities in other units (rng: numpy)"""
    if isinstance(spec, dict):
        return {k: reunit(rng, v) for k, v in spec.items()}
    if is_quantity(spec):
        q = Q(spec)
        group = [g for g in PARAM_UNITS if u.Unit(g[0]).is_equivalent(q.unit)][0]
        un = group[rng.randint(len(group))]
        return [q.to(un).value.tolist(), un]
    if isinstance(spec, list):
        return [reunit(rng, x) for x in spec]
    return spec


def radiative(spec):
    """{"type", "particle", keyword arguments...} -> naima radiative model."""
    import naima.radiative as nr

    spec = dict(spec)
    cls = getattr(nr, spec.pop("type"))
    pd = spec.pop("particle")
    pd = particle(pd) if isinstance(pd, dict) else pd
    kw = {}
    for k, v in spec.items():
        if k == "seed_photon_fields":
            kw[k] = seeds(v)
        else:
            kw[k] = Q(v)
    return cls(pd, **kw)


def seeds(v):
    if isinstance(v, str):
        return v
    out = []
    for s in v:
        if isinstance(s, str):
            out.append(s)
        else:
            s = list(s)
            out.append([s[0]] + [Q(x) for x in s[1:]])
    return out


def gen_seed(rng, i, kinds=None):
    """One seed photon field spec with a name unique to index i."""
    k = rng.choice(kinds or ["std", "bb", "bb", "bb0", "ani", "mono", "array"])
    # names that begin, end or differ in case from each other among them
    name = rng.choice(["s%d" % i, "s%dx" % i, "s%d_y" % i, "x" * (8 - i), "x" * (i + 1), "cmb%d" % i,
                       "%dCMB" % i, ["a", "A", "aA", "Aa", "AA"][i % 5], "cmb", "CMB-%d" % i])
    if k == "std":
        return rng.choice(["CMB", "FIR", "NIR"])
    T = rng.choice(
        [[sig(logu(rng, 2, 5e4)), "K"], [sig(logu(rng, 2, 5e4)) * 1e3, "mK"]]
    )
    dens = rng.choice(
        [
            [neat(rng, logu(rng, 1e-2, 1e3)), "eV/cm3"],
            [neat(rng, logu(rng, 1e-14, 1e-9)), "erg/cm3"],
            [neat(rng, logu(rng, 1e-2, 1e2)), "keV/m3"],
        ]
    )
    if k == "bb":
        return [name, T, dens]
    if k == "bb0":
        return [name, [neat(rng, logu(rng, 2, 3e3)), "K"],
                rng.choice([0, [0, "eV/cm3"], [0.0, "erg/cm3"]])]
    if k == "ani":
        th = rng.choice(
            [[round(rng.uniform(10, 180), 2), "deg"], [round(rng.uniform(0.2, 3.1), 3), "rad"],
             [rng.choice([90, 180, 180, 45, 200, 270, 300, -60]), "deg"]]
        )
        if rng.random() < 0.15:
            dens = rng.choice([0, [0, "eV/cm3"]])
        return [name, T, dens, th]
    if k == "mono":
        un = rng.choice(["eV", "keV", "erg", "meV"])
        return [name, [sig(logu(rng, 1e-3, 1e4) * u.eV.to(un)), un], dens]
    n = rng.choice([2, 5, 12])
    e0 = logu(rng, 1e-3, 1e2)
    en = [sig(x) for x in np.geomspace(e0, e0 * logu(rng, 3, 1e4), n)]
    idx = rng.uniform(-1, 3)
    d0 = logu(rng, 1e-2, 1e3)
    un = rng.choice(["eV", "eV", "keV", "erg", "meV"])
    eu = [sig(x * u.eV.to(un)) for x in en]
    if rng.random() < 0.5:
        du = rng.choice(["1/(eV cm3)", "1/(erg cm3)", "1/(keV m3)"])
        k = u.Unit("1/(eV cm3)").to(du)
        return [name, [eu, un], [[sig(d0 * (x / e0) ** -idx * k) for x in en], du]]
    du = rng.choice(["eV/cm3", "erg/cm3", "keV/m3"])
    k = u.Unit("eV/cm3").to(du)
    return [name, [eu, un], [[sig(d0 * (x / e0) ** (1 - idx) * k) for x in en], du]]


def gen_seeds(rng, nmax=4, kinds=None):
    out, names = [], set()
    for i in range(rng.randint(1, nmax)):
        s = gen_seed(rng, i, kinds)
        n = s if isinstance(s, str) else s[0]
        if n not in names:
            names.add(n)
            out.append(s)
    return out


def blackbody(s):
    """Is this field that of a full black body?"""
    return s[2] == 0 or not isinstance(s[2][0], list) and s[2][0] == 0


def seed_name(s):
    return s if isinstance(s, str) else s[0]


def gen_elimits(rng, d):
    """Optionally set the electron energy grid keywords."""
    if rng.random() < 0.6:
        d["Eemin"] = rng.choice(
            [[neat(rng, logu(rng, 1, 1e3)), "GeV"], [neat(rng, logu(rng, 1e7, 1e11)), "eV"],
             [neat(rng, logu(rng, 1e-5, 1e-3)), "TeV"]]
        )
    if rng.random() < 0.6:
        d["Eemax"] = rng.choice(
            [[sig(logu(rng, 10, 3e3)), "TeV"], [sig(logu(rng, 1e4, 1e6)), "GeV"],
             [sig(logu(rng, 30, 1e3)), "erg"]]
        )
    if rng.random() < 0.6:
        d["nEed"] = rng.choice([10, 20, 33, 50, 100, 200])
    return d


def gen_density(rng, lo, hi):
    """Number density of targets"""
    un = rng.choice(["1/cm3", "1/cm3", "1/m3", "1/l"])
    if rng.random() < 0.15:
        return [1.0, un]
    return [neat(rng, logu(rng, lo, hi)), un]


def gen_radiative(rng, kind=None, **kw):
    kind = kind or rng.choice(["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay"])
    d = {"type": kind}
    if kind == "PionDecay":
        d["particle"] = gen_particle(rng, kw.get("particle"), lo=1e9, hi=1e15)
        d["nh"] = gen_density(rng, 1e-3, 1e3)
        if rng.random() < 0.5:
            d["nuclear_enhancement"] = rng.random() < 0.5
        if rng.random() < 0.5:
            d["hiEmodel"] = rng.choice(["Geant4", "Pythia8", "SIBYLL", "QGSJET"])
        d["useLUT"] = rng.random() < 0.35
        if rng.random() < 0.5:
            d["Epmax"] = [sig(logu(rng, 0.1, 50)), "PeV"]
        if rng.random() < 0.5:
            d["Epmin"] = [sig(logu(rng, 1.22, 1e3)), "GeV"]
        if rng.random() < 0.6:
            d["nEpd"] = rng.choice([10, 25, 50, 100])
        return d
    if kind == "PionDecayKelner06":
        d["particle"] = gen_particle(
            rng, kw.get("particle") or rng.choice(["PowerLaw", "ExponentialCutoffPowerLaw"]),
            lo=1e11, hi=1e14,
        )
        d["nh"] = gen_density(rng, 1e-2, 1e2)
        return d
    d["particle"] = gen_particle(rng, kw.get("particle"))
    gen_elimits(rng, d)
    if kind == "Synchrotron":
        d["B"] = rng.choice(
            [[neat(rng, logu(rng, 0.1, 1e5)), "uG"], [neat(rng, logu(rng, 1e-7, 1e-1)), "G"],
             [neat(rng, logu(rng, 1e-11, 1e-7)), "T"], [neat(rng, logu(rng, 1e-3, 1e3)), "nG"]]
        )
    elif kind == "InverseCompton":
        d["seed_photon_fields"] = gen_seeds(rng, kinds=kw.get("kinds"))
        if d["seed_photon_fields"] == ["CMB"] and rng.random() < 0.3:
            d["seed_photon_fields"] = rng.choice(["CMB", "CMB-FIR", "CMB-FIR-NIR"])
    elif kind == "Bremsstrahlung":
        d["n0"] = gen_density(rng, 1e-3, 1e3)
        if rng.random() < 0.4:
            d["weight_ee"] = rng.choice([0.0, 1.0, round(rng.uniform(0.1, 3), 3)])
        if rng.random() < 0.4:
            d["weight_ep"] = rng.choice([0.0, 1.0, round(rng.uniform(0.1, 3), 3)])
    return d


ERANGE = {  # photon energies (eV) where each process radiates
    "Synchrotron": (1e-6, 1e7),
    "InverseCompton": (1e2, 1e15),
    "Bremsstrahlung": (1e4, 1e15),
    "PionDecay": (3e7, 3e15),
    "PionDecayKelner06": (1e8, 1e14),
}


def gen_energies(rng, kind, n=None, unit=None, sort=True):
    lo, hi = ERANGE[kind]
    n = n or rng.choice([1, 2, 7, 12, 20])
    unit = unit or rng.choice(EUNITS)
    f = u.eV.to(unit)
    e = [logu(rng, lo, hi) for _ in range(n)]
    if sort:
        e.sort()
    return [[sig(x * f, 8) for x in e], unit]
