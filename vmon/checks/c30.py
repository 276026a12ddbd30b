"""C30: values in units of something else are rejected, not computed with."""
import numpy as np
from astropy import units as u
from astropy.table import QTable, Table

from .. import fit as F
from ..core import logu, sig
from ..refs import data as D

RULE = """Every physical input of every model, data table and fit (constructor arguments,
parameters changed later, photon energies and distances, energy limits, energies to
normalise to, photon fields, table columns, outputs of a user's model, energy
densities) is given a random wrong value: a quantity of another physical type, a bare
number, a text, None, arrays of these, and negative values where positive ones are
required. Oracle: an exception before any number comes out, while the right value, in
any unit of the right type, is accepted and gives the same result. Non-trivial: every
case."""
REQUIRED = ["rejected", "accepted", "model-param", "model-set", "particle", "energy", "distance", "seed-field",
            "energy-content", "table-model", "ebl", "column", "fit", "estimate", "negative"]
CASE_LIMIT = 60

RIGHT = {
    "energy": ["eV", "TeV", "erg", "J", "keV"], "length": ["kpc", "cm", "m", "lyr"],
    "B": ["G", "uG", "T", "nT"], "density": ["1/cm3", "1/m3", "1/pc3"], "temperature": ["K", "mK"],
    "udens": ["eV/cm3", "erg/cm3", "J/m3", "Pa"], "angle": ["deg", "rad", "arcmin"],
    "diffdens": ["1/(eV cm3)", "1/(erg m3)"], "damp": ["1/eV", "1/TeV", "1/erg"],
}
OTHER = ["m", "s", "K", "eV", "G", "1/cm3", "kg", "1/TeV", "eV/cm3", "1/(s cm2 TeV)", "erg/s", "", "rad", "A", "m/s", "cm2",
         "1/m", "eV2", "1/eV2", "kpc2", "mol"]


def wrong_unit(rng, kind):
    ref = u.Unit(RIGHT[kind][0])
    if rng.random() < 0.3:
        return ""
    return rng.choice([x for x in OTHER if not u.Unit(x).is_equivalent(ref)])


def gen_wrong(rng, kind):
    """A wrong value as JSON"""
    k = rng.choice(["unit"] * 6 + ["bare", "text", "none", "array"])
    v = sig(logu(rng, 1e-3, 1e3))
    if k == "unit":
        return ["q", v, wrong_unit(rng, kind)]
    if k == "array":
        return ["q", [v, 2 * v], wrong_unit(rng, kind)]
    return {"bare": ["x", v], "text": ["x", rng.choice(["1 cm", "many", ""])], "none": ["x", None]}[k]


def build(w):
    return u.Quantity(w[1], w[2]) if w[0] == "q" else w[1]


CLASSES = {
    "Synchrotron": {"B": ["B", [3, "uG"]], "Eemin": ["energy", [2, "GeV"]], "Eemax": ["energy", [30, "TeV"]]},
    "InverseCompton": {"Eemin": ["energy", [2, "GeV"]], "Eemax": ["energy", [30, "TeV"]]},
    "Bremsstrahlung": {"n0": ["density", [2, "1/cm3"]], "Eemin": ["energy", [2, "GeV"]], "Eemax": ["energy", [30, "TeV"]]},
    "PionDecay": {"nh": ["density", [2, "1/cm3"]], "Epmin": ["energy", [2, "GeV"]], "Epmax": ["energy", [3, "PeV"]]},
    "PionDecayKelner06": {"nh": ["density", [2, "1/cm3"]], "Etrans": ["energy", [0.2, "TeV"]]},
}
PART = {
    "PowerLaw": ["e_0"], "ExponentialCutoffPowerLaw": ["e_0", "e_cutoff"], "BrokenPowerLaw": ["e_0", "e_break"],
    "ExponentialCutoffBrokenPowerLaw": ["e_0", "e_break", "e_cutoff"], "LogParabola": ["e_0"],
}
PVAL = {
    "PowerLaw": {"alpha": 2.1}, "ExponentialCutoffPowerLaw": {"alpha": 2.1, "beta": 1.2},
    "BrokenPowerLaw": {"alpha_1": 1.7, "alpha_2": 2.6},
    "ExponentialCutoffBrokenPowerLaw": {"alpha_1": 1.7, "alpha_2": 2.6, "beta": 0.8},
    "LogParabola": {"alpha": 2.0, "beta": 0.1},
}
EVAL = {"e_0": [3, "TeV"], "e_break": [2, "TeV"], "e_cutoff": [40, "TeV"]}
SITES = ["model-param", "model-set", "particle", "particle-unit", "energy", "distance", "seed-field", "energy-content",
         "energy-limit", "table-model", "ebl", "column", "column", "fit", "estimate", "negative"]


def gen(rng, tier):
    n = {"quick": 1400, "thorough": 60000}[tier]
    out = []
    for i in range(n):
        s = SITES[i % len(SITES)]
        c = {"site": s, "rs": rng.randrange(1 << 30)}
        cl = rng.choice(sorted(CLASSES))
        if s in ("model-param", "model-set"):
            p = rng.choice(sorted(CLASSES[cl]))
            kind = CLASSES[cl][p][0]
            c.update(cls=cl, par=p, kind=kind)
        elif s == "particle":
            cl = rng.choice(sorted(PART))
            c.update(cls=cl, par=rng.choice(PART[cl]), kind="energy", later=rng.random() < 0.5)
        elif s == "particle-unit":
            c.update(cls=cl, kind="damp", part=rng.choice(sorted(PART)), func=rng.random() < 0.4, later=rng.random() < 0.4)
        elif s == "energy":
            c.update(cls=rng.choice(sorted(CLASSES) + sorted(PART)), kind="energy", form=rng.choice(["q", "dict", "table"]))
        elif s == "distance":
            c.update(cls=cl, kind="length", seed=rng.random() < 0.5, f=rng.choice(["flux", "sed"]))
        elif s == "seed-field":
            k = rng.choice(["temperature", "udens", "angle", "energy-mono", "udens-mono", "density-array"])
            c.update(sub=k, kind={"energy-mono": "energy", "udens-mono": "udens", "density-array": "udens"}.get(k, k),
                     ani=rng.random() < 0.4)
        elif s in ("energy-content", "energy-limit"):
            c.update(cls=rng.choice(["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay"]), kind="energy",
                     f=rng.choice(["set", "compute"]), lim=rng.choice(["min", "max"]))
        elif s in ("table-model", "ebl"):
            c.update(kind="energy", sub=rng.choice(["build", "call"]))
        elif s == "column":
            c.update(kind=rng.choice(["flux", "energy"]), t=D.gen_table(rng, uls="some"), pick=rng.random(),
                     t2=rng.random() < 0.3)
        elif s == "fit":
            c.update(kind="flux", sub=rng.choice(["unit", "none", "energy", "missing"]),
                     pr=F.gen_problem(rng, ntab=1, npt=3, forms=["bare", "tuple"]), pick=rng.random())
        elif s == "estimate":
            c.update(kind="udens", sub=rng.choice(["density", "mixed"]),
                     t=[D.gen_table(rng, j, ["flux", "differential flux"]) for j in range(2)],
                     x=D.gen_table(rng, 1, ["power", "differential power"]))
        elif s == "negative":
            c.update(kind="energy", sub=rng.choice(["e_0", "e_break", "e_cutoff", "T", "u", "Etrans", "z", "n", "E", "n1", "E1", "table"]))
        k = c.get("kind")
        c["w"] = gen_wrong(rng, k if k in RIGHT else "energy")
        if k in RIGHT:
            c["unit"] = rng.choice(RIGHT[k])
        out.append(c)
    return out


def models():
    import naima.models as nm
    import naima.radiative as nr

    return nm, nr


def E0(cls):
    return np.array([{"Synchrotron": 1e3, "PionDecay": 1e9, "PionDecayKelner06": 3e11}.get(cls, 1e8)]) * u.eV


def particle(name="PowerLaw", **k):
    nm, _ = models()
    kw = {"amplitude": 1e35 / u.eV}
    kw.update({p: EVAL[p][0] * u.Unit(EVAL[p][1]) for p in PART[name]})
    kw.update(PVAL[name])
    kw.update(k)
    return getattr(nm, name)(**kw)


def radiative(cls, pd=None, **k):
    _, nr = models()
    kw = {p: v[1][0] * u.Unit(v[1][1]) for p, v in CLASSES[cls].items()}
    if cls == "PionDecay":
        kw["useLUT"] = False
        kw["nEpd"] = 10
    elif cls != "PionDecayKelner06":
        kw["nEed"] = 10
    kw.update(k)
    return getattr(nr, cls)(pd or particle(), **kw)


def as_q(v, unit):
    return (v[0] * u.Unit(v[1])).to(unit)


def both(mon, case, site, f, good, wrong, what):
    """f(good) works and f(wrong) raises"""
    try:
        g1 = f(good)
    except Exception as exc:
        raise type(exc)("valid input of %s: %s" % (what, exc)) if type(exc) in (TypeError, ValueError) else exc
    mon.seen("accepted")
    mon.seen(site)
    reject(mon, site, f, wrong, what)
    return g1


def reject(mon, site, f, wrong, what):
    try:
        out = f(wrong)
    except Exception as exc:
        mon.seen("rejected")
        mon.seen(site)
        mon.cls("exception", type(exc).__name__)
        return
    mon.check("rejected", False, "%s accepts %r and returns %s" % (what, wrong, str(out)[:200]))


def same(mon, f, good, ref_unit, what):
    """The same value in another unit gives the same"""
    a, b = f(good), f(good.to(ref_unit))
    b = b.to(a.unit) if hasattr(a, "unit") else b
    mon.close("accepted", np.asarray(getattr(a, "value", a), float), np.asarray(getattr(b, "value", b), float), rtol=1e-6,
              atol=0, msg=what + " in other units")


def run(case, mon):
    nm, nr = models()
    site, wrong = case["site"], build(case["w"])
    mon.cls("wrong", type(wrong).__name__ if not hasattr(wrong, "unit") else str(wrong.unit))
    mon.cls("site", site)
    rng = np.random.RandomState(case["rs"] % 2**31)
    if site in ("model-param", "model-set"):
        cls, p = case["cls"], case["par"]
        good = as_q(CLASSES[cls][p][1], case["unit"])

        def f(x):
            if site == "model-param":
                return radiative(cls, **{p: x}).flux(E0(cls))
            r = radiative(cls)
            r.flux(E0(cls))
            setattr(r, p, x)
            return r.flux(E0(cls))

        both(mon, case, site, f, good, wrong, "%s.%s" % (cls, p))
        same(mon, f, good, CLASSES[cls][p][1][1], "%s.%s" % (cls, p))
    elif site == "particle":
        cls, p = case["cls"], case["par"]
        good = as_q(EVAL[p], case["unit"])

        def f(x):
            if not case["later"]:
                return particle(cls, **{p: x})(np.array([0.5, 3]) * u.TeV)
            pd = particle(cls)
            pd(np.array([0.5, 3]) * u.TeV)
            setattr(pd, p, x)
            return pd(np.array([0.5, 3]) * u.TeV)

        both(mon, case, site, f, good, wrong, "%s.%s" % (cls, p))
        same(mon, f, good, "TeV", "%s.%s" % (cls, p))
    elif site == "particle-unit":
        cls = case["cls"]

        def f(x):
            if case["func"]:
                pd = lambda e: np.ones(np.shape(e)) * x  # noqa: E731
                return radiative(cls, pd).flux(E0(cls)) if cls != "PionDecayKelner06" else [][0]
            if case["later"]:
                r = radiative(cls, particle(case["part"]))
                r.particle_distribution.amplitude = x
                return r.flux(E0(cls))
            return radiative(cls, particle(case["part"], amplitude=x)).flux(E0(cls))

        good = (1e35 / u.eV).to(case["unit"])
        if case["func"] and cls == "PionDecayKelner06":
            return mon.mark_trivial()
        if cls == "PionDecayKelner06" and np.ndim(wrong) == 1:
            return mon.mark_trivial()
        both(mon, case, "model-param", f, good, wrong, "amplitude of the particles of %s" % cls)
    elif site == "energy":
        cls = case["cls"]
        obj = radiative(cls) if cls in CLASSES else particle(cls)
        good = (E0(cls) * (1 + rng.uniform())).to(case["unit"])
        wrap = {"q": lambda x: x, "dict": lambda x: {"energy": x}, "table": lambda x: Table({"energy": np.atleast_1d(x)})}
        w = wrap[case["form"]]
        g = obj.flux if cls in CLASSES else obj
        f = lambda x: g(w(x))  # noqa: E731
        both(mon, case, site, f, good, wrong, "energies of %s as %s" % (cls, case["form"]))
        if case["form"] != "q":
            reject(mon, site, g, {"energies": good} if case["form"] == "dict" else Table({"energies": good}),
                   "table without energies in %s" % cls)
        if cls in CLASSES:
            reject(mon, site, lambda x: obj.sed(w(x)), wrong, "sed of %s" % cls)
    elif site == "distance":
        r = radiative(case["cls"])
        e = E0(case["cls"])
        kw = {"seed": 0} if case["cls"] == "InverseCompton" and case["seed"] else {}
        f = lambda x: getattr(r, case["f"])(e, distance=x, **kw)  # noqa: E731
        good = (3 * u.kpc).to(case["unit"])
        if isinstance(wrong, u.Quantity) and np.ndim(wrong):
            wrong = wrong[0]
        both(mon, case, site, f, good, wrong, "distance in %s of %s" % (case["f"], case["cls"]))
        same(mon, f, good, "kpc", "distance")
    elif site == "seed-field":
        k = case["sub"]
        T, U, th = 40 * u.K, 2 * u.eV / u.cm**3, 60 * u.deg
        if k in ("temperature", "energy-mono"):
            # temperatures and energies are both allowed there
            if isinstance(wrong, u.Quantity) and wrong.unit.is_equivalent("K" if k == "energy-mono" else "eV"):
                wrong = wrong.value * u.kg
        ic = lambda s: radiative("InverseCompton", seed_photon_fields=[s]).flux(E0("InverseCompton"))  # noqa: E731
        tail = [th] if case["ani"] else []
        if k == "temperature":
            f, good = (lambda x: ic(["x", x, U] + tail)), T.to(case["unit"])
        elif k == "udens":
            f, good = (lambda x: ic(["x", T, x] + tail)), U.to(case["unit"])
        elif k == "angle":
            f, good = (lambda x: ic(["x", T, U, x])), th.to(case["unit"])
        elif k == "energy-mono":
            f, good = (lambda x: ic(["x", x, U])), (0.5 * u.eV).to(case["unit"])
        elif k == "udens-mono":
            f, good = (lambda x: ic(["x", 0.5 * u.eV, x])), U.to(case["unit"])
        else:
            e = np.array([0.1, 0.2, 0.4]) * u.eV
            f = lambda x: ic(["x", e, x * np.ones(3)])  # noqa: E731
            good = U.to(case["unit"])
            if isinstance(wrong, u.Quantity):
                if np.ndim(wrong) or wrong.unit.is_equivalent("1/(eV cm3)"):
                    wrong = 3 * u.kg
            elif not isinstance(wrong, float):
                wrong = 3.0
        both(mon, case, site, f, good, wrong, "%s of a photon field" % k)
        same(mon, f, good, RIGHT[case["kind"]][0], k)
    elif site in ("energy-content", "energy-limit"):
        cls = case["cls"]
        n = "p" if cls == "PionDecay" else "e"
        r = radiative(cls)
        if site == "energy-content":
            def f(x):
                getattr(r, "set_W" + n)(x)
                return r.flux(E0(cls))
            good = (1e48 * u.erg).to(case["unit"])
            before = r.particle_distribution.amplitude
            reject(mon, site, f, wrong, "set_W%s of %s" % (n, cls))
            mon.check(site, r.particle_distribution.amplitude == before, "a rejected energy changes the amplitude")
            f(good)
        else:
            k = "E%s%s" % (n, case["lim"])
            good = ((1 if case["lim"] == "min" else 20) * u.TeV).to(case["unit"])
            if wrong is None:
                wrong = 3 * u.m

            def f(x):
                if case["f"] == "compute":
                    return getattr(r, "compute_W" + n)(**{k: x})
                getattr(r, "set_W" + n)(1e48 * u.erg, **{k: x})
                return r.flux(E0(cls))
            both(mon, case, "energy-content", f, good, wrong, "%s of %s" % (k, cls))
    elif site == "table-model":
        e = np.geomspace(1, 10, 5)
        if case["sub"] == "build":
            f = lambda x: nm.TableModel(np.atleast_1d(x) * e, e**-2 / u.eV)(2 * u.TeV)  # noqa: E731
            good = (1 * u.TeV).to(case["unit"])
            if isinstance(wrong, str) or wrong is None or (isinstance(wrong, u.Quantity) and np.ndim(wrong)):
                wrong = 3 * u.m
        else:
            t = nm.TableModel(e * u.TeV, e**-2 / u.eV)
            f, good = t, (2 * u.TeV).to(case["unit"])
        both(mon, case, site, f, good, wrong, "TableModel (%s)" % case["sub"])
        reject(mon, site, lambda x: nm.TableModel(e * u.TeV, x), e[:-1], "table of unequal lengths")
    elif site == "ebl":
        if case["sub"] == "build":
            if isinstance(wrong, float):
                wrong = -wrong
            if isinstance(wrong, u.Quantity) and wrong.unit.is_equivalent(""):
                wrong = 3 * u.m
            f = lambda x: nm.EblAbsorptionModel(x).transmission(1 * u.TeV)  # noqa: E731
            both(mon, case, site, f, 0.2, wrong, "redshift")
            reject(mon, site, lambda x: nm.EblAbsorptionModel(0.1, ebl_absorption_model=x), "Franceschini08x", "EBL model")
        else:
            f = nm.EblAbsorptionModel(0.1).transmission
            both(mon, case, site, f, (1 * u.TeV).to(case["unit"]), wrong, "energies of the transmission")
    elif site == "column":
        run_column(case, mon, rng)
    elif site == "fit":
        run_fit(case, mon, rng)
    elif site == "estimate":
        import naima

        t = [D.to_table(s, case["rs"]) for s in case["t"]]
        if case["sub"] == "density":
            f = lambda x: naima.estimate_B(t[0], t[1], photon_energy_density=x)  # noqa: E731
            both(mon, case, site, f, (1 * u.eV / u.cm**3).to(case["unit"]), wrong, "photon_energy_density")
            same(mon, f, (1 * u.eV / u.cm**3).to(case["unit"]), "eV/cm3", "energy density")
        else:
            x = D.to_table(case["x"], case["rs"])
            both(mon, case, site, lambda y: naima.estimate_B(t[0], y), t[1], x, "a flux and a luminosity in estimate_B")
            reject(mon, site, lambda y: naima.estimate_B(y, t[0]), x, "a luminosity and a flux in estimate_B")
    elif site == "negative":
        v = -abs(logu(__import__("random").Random(case["rs"]), 1e-3, 1e3))
        k = case["sub"]
        ic = lambda *s: radiative("InverseCompton", seed_photon_fields=[["x"] + list(s)])  # noqa: E731
        f = {
            "e_0": lambda: particle("PowerLaw", e_0=v * u.TeV),
            "e_break": lambda: particle("ExponentialCutoffBrokenPowerLaw", e_break=v * u.TeV),
            "e_cutoff": lambda: particle("ExponentialCutoffPowerLaw", e_cutoff=v * u.TeV),
            "T": lambda: ic(v * u.K, 1 * u.eV / u.cm**3),
            "u": lambda: ic(3 * u.K, v * u.eV / u.cm**3),
            "n": lambda: ic([1, 3] * u.eV, [5, v] / u.eV / u.cm**3),
            "E": lambda: ic([v, 3] * u.eV, [5, 4] / u.eV / u.cm**3),
            "n1": lambda: ic(1 * u.eV, v * u.eV / u.cm**3),
            "E1": lambda: ic(v * u.eV, 1 * u.eV / u.cm**3),
            "table": lambda: nm.TableModel([v, 1, 2, 3, 5] * u.TeV, [5, 4, 3, 2, 1] / u.TeV),
            "Etrans": lambda: radiative("PionDecayKelner06", Etrans=v * u.TeV),
            "z": lambda: nm.EblAbsorptionModel(v),
        }[k]
        reject(mon, site, lambda x: f(), v, "negative " + k)


COLS = {"energy": ["energy", "energy_width", "energy_error", "energy_error_lo", "energy_error_hi", "energy_lo", "energy_hi"],
        "flux": ["flux", "flux_error", "flux_error_lo", "flux_error_hi", "flux_ul"]}


def run_column(case, mon, rng):
    from naima.utils import validate_data_table as V

    s = case["t"]
    t = D.to_table(s, case["rs"])
    cols = [c for c in COLS[case["kind"]] if c in t.colnames and (c != "flux_ul" or any(s["ul"]))]
    c = cols[int(case["pick"] * len(cols))]
    w = build(case["w"])
    n = len(t)
    kinds = [u.Unit(x) for x in (["eV"] if case["kind"] == "energy" else sum(D.UNITS.values(), []))]
    if not isinstance(w, u.Quantity) or any(w.unit.is_equivalent(k) for k in kinds):
        w = 3 * u.m
    elif np.ndim(w):
        w = w[0]
    bad = QTable(t) if s["q"] else Table(t)
    vals = np.abs(np.asarray(t[c], float)) + 1e-30
    V(t)
    mon.seen("accepted")
    bad[c] = vals * w
    pair = D.to_table(s, case["rs"])
    f = (lambda x: V([pair, x])) if case["t2"] else V
    reject(mon, "column", f, bad, "column %s" % c)
    if c != "flux_ul":
        bad[c] = vals
        reject(mon, "column", f, bad, "column %s without unit" % c)
    # flags and levels
    bad = t.copy()
    bad["ul"] = np.array(["yes"] * n)
    reject(mon, "column", f, bad, "flags as texts")
    bad["ul"] = np.linspace(0, 1, n)
    reject(mon, "column", f, bad, "flags as real numbers")
    bad = t.copy()
    bad.meta["keywords"] = {"cl": {"value": rng.choice(["high", "0.9"])}}
    reject(mon, "column", f, bad, "confidence level as a text")
    mixed = t.copy()
    if "flux_error" in t.colnames:
        k2 = [k for k in D.UNITS if not u.Unit(D.UNITS[k][0]).is_equivalent(t["flux"].unit)]
        mixed["flux_error"] = np.abs(np.asarray(t["flux_error"], float)) * u.Unit(D.UNITS[k2[rng.randint(len(k2))]][0])
        reject(mon, "column", f, mixed, "errors in %s of fluxes in %s" % (mixed["flux_error"].unit, t["flux"].unit))


def run_fit(case, mon, rng):
    import naima

    pr = case["pr"]
    if not F.distinct(pr):
        return mon.mark_trivial()
    m = F.Model(pr)
    t = F.tables(pr)
    kw = dict(data_table=t, p0=[1.0, 0.1], nwalkers=4, nburn=0, threads=1)
    lum = "power" in pr["mkind"]
    if case["sub"] == "missing":
        k = ["data_table", "p0", "model"][int(case["pick"] * 3)]
        f = lambda x: F.silent(naima.get_sampler, **dict(kw, model=m, **({} if x else {})), ) if x else F.silent(  # noqa: E731
            naima.get_sampler, **{a: b for a, b in dict(kw, model=m).items() if a != k})
        both(mon, case, "fit", f, True, False, "get_sampler without " + k)
        return
    other = [k for k in D.UNITS if ("power" in k) != lum]

    class Wrong(F.Model):
        def __call__(self, pars, data):
            out = super().__call__(pars, data)
            spec = out[0] if isinstance(out, tuple) else out
            bad = {"unit": spec.value * u.Unit(D.UNITS[other[rng.randint(len(other))]][0]), "none": spec.value,
                   "energy": spec.value * u.TeV}[case["sub"]]
            return (bad,) + out[1:] if isinstance(out, tuple) else bad

    def f(x):
        s, pos = F.silent(naima.get_sampler, model=x, **kw)
        s, _ = F.silent(naima.run_sampler, sampler=s, pos=pos, nrun=1)
        return s.get_log_prob()

    import contextlib
    import io

    with contextlib.redirect_stderr(io.StringIO()):
        both(mon, case, "fit", f, m, Wrong(pr), "a fit to a model with outputs of the wrong unit (%s)" % case["sub"])
