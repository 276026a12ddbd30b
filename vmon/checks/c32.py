"""C32: arguments that are left out have their documented values."""
import os
import shutil
import tempfile

import numpy as np
from astropy import units as u

from .. import build as b
from .. import fit as F
from ..core import logu, sig, val
from ..refs import data as D

RULE = """Random calls of every public class and function with optional arguments, in which
a random choice of them is left out, next to the same call in which these are given
with the value that the documentation states: spectra, SEDs, energy contents,
particle distributions, absorption, tables, estimates, priors, the number of walkers,
steps, evaluations and processes of a run, saved tables and runs, and the artists of every
figure. Oracle: both are equal. The documented values are transcribed from the
documentation, not read from the code. Non-trivial: every case."""
REQUIRED = ["model", "distance", "particle", "absorption", "table", "run", "results", "figure", "fitter"]
CASE_LIMIT = 150

TRUE, FALSE, NONE = True, False, None
# class -> optional argument -> documented value
MODEL = {
    "Synchrotron": {"B": [3.24e-6, "G"], "Eemin": [1, "GeV"], "Eemax": [510, "TeV"], "nEed": 100},
    "InverseCompton": {"seed_photon_fields": "CMB", "Eemin": [1, "GeV"], "Eemax": [510, "TeV"], "nEed": 100},
    "Bremsstrahlung": {"n0": [1, "1/cm3"], "weight_ee": 1.088, "weight_ep": 1.263},
    "PionDecay": {"nh": [1, "1/cm3"], "nuclear_enhancement": True, "Epmin": [1.22, "GeV"], "Epmax": [10, "PeV"],
                  "nEpd": 100, "hiEmodel": "Pythia8", "useLUT": True},
    "PionDecayKelner06": {"nh": [1, "1/cm3"], "Etrans": [0.1, "TeV"]},
}
# values that are rounded in the documentation
ROUNDED = {"Eemax": 0.03, "weight_ee": 1e-3, "weight_ep": 1e-3, "Epmin": 0.01}
ENERGY = {"Synchrotron": (1e-3, 1e5), "InverseCompton": (1e5, 1e13), "Bremsstrahlung": (1e6, 1e13),
          "PionDecay": (3e8, 1e14), "PionDecayKelner06": (1e9, 1e13)}
FIT = {"guess": True, "prefit": False, "interactive": False, "labels": None, "data_sed": None, "prior": None}
RESULTS = {"format": "ascii.ecsv", "convert_log": True, "include_blobs": True, "overwrite": False, "last_step": False}
PLOT = {"modelidx": 0, "sed": True, "last_step": False, "n_samples": 100, "confs": None, "ML_info": False,
        "plotdata": None, "plotresiduals": None, "e_unit": None, "e_range": None, "label": None}
DATA = {"sed": True, "e_unit": None}
SITES = ["model"] * 6 + ["distance"] * 2 + ["particle", "absorption", "table", "run", "results", "plot", "plot", "data",
                                           "fitter", "run"]


def gen(rng, tier):
    n = {"quick": 320, "thorough": 12000}[tier]
    out = []
    for i in range(n):
        s = SITES[i % len(SITES)]
        c = {"site": s, "rs": rng.randrange(1 << 30)}
        if s in ("model", "distance"):
            cl = rng.choice(sorted(MODEL))
            c["spec"] = b.gen_radiative(rng, cl)
            if cl in ("Synchrotron", "InverseCompton"):
                # electrons up to the end of their range
                c["spec"]["particle"] = b.gen_particle(rng, rng.choice(["PowerLaw", "LogParabola"]))
            c["omit"] = [k for k in sorted(MODEL[cl]) if rng.random() < 0.6]
            if cl == "InverseCompton":
                c["omit"] = [k for k in c["omit"] if k != "seed_photon_fields" or rng.random() < 0.5]
            lo, hi = ENERGY[cl]
            c["E"] = [sig(logu(rng, lo, hi), 6) for _ in range(rng.choice([3, 6]))]
            c["set"] = rng.random() < 0.3
        elif s == "particle":
            c["spec"] = b.gen_particle(rng, rng.choice(["ExponentialCutoffPowerLaw", "ExponentialCutoffBrokenPowerLaw"]))
            c["E"] = [sig(logu(rng, 1e9, 1e14), 6) for _ in range(6)]
        elif s == "absorption":
            c.update(z=sig(logu(rng, 0.01, 3.9), 3), E=[sig(logu(rng, 1e10, 1e14), 6) for _ in range(6)])
        elif s == "table":
            c.update(t=[D.gen_table(rng, j, ["flux", "differential flux"], npt=rng.choice([1, 2, 5])) for j in range(2)],
                     v=sig(logu(rng, 1e-3, 1e3)))
            for t in c["t"]:
                t["cl"] = None
        else:
            c["pr"] = F.gen_problem(rng, npt=rng.choice([2, 4]), forms=["bare", "tuple", "scalars"])
            kw = {"run": FIT, "results": RESULTS, "plot": PLOT, "data": DATA}.get(s, {})
            c["omit"] = [k for k in sorted(kw) if rng.random() < 0.6]
            c.update(what=rng.choice(["nwalkers", "nburn", "nrun", "other", "other", "threads"]), labels=rng.choice(
                [None, ["norm", "index"], ["log10(norm)", "x"]]), fun=rng.choice(["fit", "fit", "blob", "corner"]))
        out.append(c)
    return out


def parts(d):
    d = dict(d)
    return d.pop("type"), d


def same(mon, rule, x, y, msg, rtol=1e-12):
    un = getattr(y, "unit", u.one)
    x = u.Quantity(x)
    mon.check(rule, x.unit.is_equivalent(un), msg + ": unit %s" % x.unit)
    mon.close(rule, x.to(un).value, u.Quantity(y).value, rtol=rtol, msg=msg)


def figsig(f):
    out = []
    for ax in f.axes:
        for ln in ax.lines:
            out.append(("line", np.asarray(ln.get_xydata(), float), ln.get_linestyle(), ln.get_marker()))
        for c in ax.collections:
            out.append(("coll", [np.asarray(p.vertices, float) for p in c.get_paths()],
                        np.asarray(c.get_offsets(), float)))
        out.append(("ax", ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), ax.get_xscale(), ax.get_yscale(),
                    ax.get_xlim(), ax.get_ylim(), [t.get_text() for t in ax.texts]))
    out.append(("fig", len(f.axes), [t.get_text() for t in f.texts]))
    return out


def equal(x, y):
    if isinstance(x, np.ndarray):
        return isinstance(y, np.ndarray) and x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=0, equal_nan=True)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(equal(a, c) for a, c in zip(x, y))
    if isinstance(x, float):
        return bool(np.isclose(x, y, rtol=1e-9, atol=0))
    return x == y


def figures(mon, msg, f, g):
    a, c = figsig(f), figsig(g)
    bad = [(x, y) for x, y in zip(a, c) if not equal(x, y)]
    mon.check("figure", len(a) == len(c) and not bad, "%s: figures differ in %d of %d and %d artists; %s" % (
        msg, len(bad), len(a), len(c), str(bad[:1])[:300]))


def run(case, mon):
    import matplotlib.pyplot as plt

    mon.cls("site", case["site"])
    try:
        {"model": do_model, "distance": do_distance, "particle": do_particle, "absorption": do_absorption,
         "table": do_table, "run": do_run, "results": do_results, "plot": do_plot, "data": do_data,
         "fitter": do_fitter}[case["site"]](case, mon)
    finally:
        plt.close("all")


def pair(case):
    spec = dict(case["spec"])
    doc = MODEL[spec["type"]]
    for k in case["omit"]:
        spec.pop(k, None)
    full = dict(spec)
    for k in case["omit"]:
        full[k] = doc[k]
    return spec, full


def do_model(case, mon):
    spec, full = pair(case)
    cl = spec["type"]
    tol = max([1e-9] + [ROUNDED.get(k, 0) for k in case["omit"]])
    x, y = b.radiative(spec), b.radiative(full)
    for k in case["omit"]:
        mon.cls("left out of " + cl, k)
    if case["set"]:
        # given later instead
        for k in case["omit"]:
            if k not in ("seed_photon_fields",):
                setattr(y, k, b.Q(MODEL[cl][k]))
    E = np.array(case["E"]) * u.eV
    a, c = val(x.flux(E, distance=0), "1/(s eV)"), val(y.flux(E, distance=0), "1/(s eV)")
    # rounded limits matter where the spectrum is cut off
    atol = 0 if tol < 1e-8 else 1e-3 * np.max(np.abs(c * E.value**2)) / E.value**2
    if "Epmin" in case["omit"]:
        atol, tol = atol, 0.03
    if "Eemax" in case["omit"]:
        # close to the cutoff: between the spectra of slightly lower and higher limits
        tol = 0.03
        q = [val(b.radiative(dict(full, Eemax=[v, "TeV"])).flux(E, distance=0), "1/(s eV)") for v in (500, 520)]
        lo, hi = np.minimum(*q), np.maximum(*q)
        ok = (a >= np.minimum(lo, c) * (1 - tol)) & (a <= np.maximum(hi, c) * (1 + tol))
        mon.check("model", np.all(ok), "%s without %s: %s instead of %s" % (cl, case["omit"], a, c))
    else:
        mon.close("model", a, c, rtol=tol, atol=atol, msg="%s without %s" % (cl, case["omit"]))
    if cl == "PionDecayKelner06":
        return
    w = "Wp" if cl == "PionDecay" else "We"
    same(mon, "model", getattr(x, w), getattr(y, w), "%s of %s" % (w, cl), rtol=max(tol, 0.03 if tol > 1e-8 else 0))
    f = getattr(x, "compute_" + w)
    k = "Ep" if w == "Wp" else "Ee"
    lo, hi = getattr(y, k + "min"), getattr(y, k + "max")
    same(mon, "model", f(), getattr(x, w), "energy content without limits", rtol=1e-9)
    same(mon, "model", f(**{k + "min": 3 * u.TeV}), f(**{k + "min": 3 * u.TeV, k + "max": hi}), "without upper limit",
         rtol=0.05 if tol > 1e-8 else 1e-9)
    same(mon, "model", f(**{k + "max": 3 * u.TeV}), f(**{k + "min": lo, k + "max": 3 * u.TeV}), "without lower limit",
         rtol=0.05 if tol > 1e-8 else 1e-9)
    x2, x3 = b.radiative(spec), b.radiative(spec)
    getattr(x2, "set_" + w)(1e48 * u.erg)
    getattr(x3, "set_" + w)(1e48 * u.erg, amplitude_name="amplitude")
    same(mon, "model", x2.flux(E), x3.flux(E), "set_%s without amplitude_name" % w, rtol=1e-9)
    same(mon, "model", getattr(x2, w), 1e48 * u.erg, "set_%s without limits" % w, rtol=1e-6)


def do_distance(case, mon):
    spec, _ = pair(dict(case, omit=[]))
    m = b.radiative(spec)
    E = np.array(case["E"]) * u.eV
    for f in (m.flux, m.sed):
        same(mon, "distance", f(E), f(E, distance=1 * u.kpc), "without distance", rtol=1e-12)
        same(mon, "distance", f(E, 3 * u.kpc) * 9, f(E), "distance by position", rtol=1e-9)
    if spec["type"] == "InverseCompton":
        for f in (m.flux, m.sed):
            same(mon, "distance", f(E), f(E, seed=None), "without seed", rtol=1e-12)
            n = b.seed_name(spec["seed_photon_fields"][0]) if isinstance(spec["seed_photon_fields"], list) else None
            if n:
                same(mon, "distance", f(E, seed=n), f(E, seed=n, distance=1 * u.kpc), "seed without distance")


def do_particle(case, mon):
    import naima.models as nm

    s = dict(case["spec"])
    E = np.array(case["E"]) * u.eV
    s.pop("beta")
    same(mon, "particle", b.particle(s)(E), b.particle(dict(s, beta=1.0))(E), "%s without beta" % s["type"])
    x = np.geomspace(1, 100, 7) * u.TeV
    v = np.arange(1, 8.0) / u.TeV
    e = np.sort(E)[-3:] * 0 + np.array([1.5, 20, 80]) * u.TeV
    same(mon, "particle", nm.TableModel(x, v)(e), nm.TableModel(x, v, amplitude=1)(e), "table without amplitude")


def do_absorption(case, mon):
    from naima.models import EblAbsorptionModel as M

    E = np.array(case["E"]) * u.eV
    same(mon, "absorption", M(case["z"]).transmission(E), M(case["z"], ebl_absorption_model="Dominguez").transmission(E),
         "without EBL model")
    same(mon, "absorption", M(case["z"]).transmission(E), M(case["z"], "Dominguez").transmission(E), "EBL model by position")


def do_table(case, mon):
    import naima
    from naima.utils import validate_data_table as V

    t = [D.to_table(s, case["rs"]) for s in case["t"]]
    for x in t:
        x.meta.pop("keywords", None)
    first = not case["t"][0]["kind"].startswith("diff")
    for x in (t[0], t):
        a, c = V(x), V(x, sed=first)
        for k in c.colnames:
            mon.check("table", np.array_equal(np.asarray(a[k]), np.asarray(c[k])) and a[k].unit == c[k].unit
                      if hasattr(c[k], "unit") else np.array_equal(a[k], c[k]), "column %s without sed" % k)
        mon.close("table", np.asarray(a["cl"], float), np.full(len(a), 0.9), rtol=1e-12, msg="confidence level that is not given")
        if "ul" not in t[0].colnames and x is t[0]:
            mon.check("table", not np.any(a["ul"]), "upper limits that are not given")
    n = len(t[0])
    kw = dict(flux_error=np.ones(n) * t[0]["flux"].unit * 1e-20)
    ul = [True] * n
    a = V(naima.build_data_table(t[0]["energy"], t[0]["flux"], ul=ul, **kw))
    mon.close("table", np.asarray(a["cl"], float), np.full(len(a), 0.9), rtol=1e-12, msg="level of build_data_table")
    a = V(naima.build_data_table(t[0]["energy"], t[0]["flux"], **kw))
    mon.check("table", not np.any(a["ul"]), "upper limits of build_data_table")
    if min(len(x) for x in t) > 1:
        same(mon, "table", naima.estimate_B(t[0], t[1]),
             naima.estimate_B(t[0], t[1], photon_energy_density=0.261 * u.eV / u.cm**3), "estimate of the CMB", rtol=1e-9)
    v = case["v"]
    for x in (v, -v, 0.0):
        mon.check("table", naima.log_uniform_prior(x) == naima.log_uniform_prior(x, umin=0)
                  == naima.log_uniform_prior(x, 0, None), "log-uniform prior without limits")


def sampler(case, nw=6, nrun=5, labels=None, prior=None, **kw):
    import naima

    m = F.Model(case["pr"])
    np.random.seed(case["rs"] % 2**31)
    kw = dict(dict(guess=False, nburn=0), **kw)
    s, pos = F.silent(naima.run_sampler, nrun=nrun, data_table=F.tables(case["pr"]), p0=[1.0, 0.3], model=m, prior=prior,
                      nwalkers=nw, threads=1, labels=labels, **kw)
    return s, m


class Census(F.Model):
    """Counts the processes of a pool from within"""

    def __init__(self, pr, log):
        super().__init__(pr)
        self.main, self.census = os.getpid(), log

    def __call__(self, pars, data):
        if os.getpid() != self.main:
            n = 0
            for d in os.listdir("/proc"):
                if d.isdigit():
                    try:
                        with open("/proc/%s/stat" % d) as fh:
                            t = fh.read()
                        n += int(t[t.rindex(")") + 2:].split()[1]) == self.main
                    except OSError:
                        pass
            with open(self.census, "a") as fh:
                fh.write("%d\n" % n)
        e = data["energy"].to("eV").value
        return (self.values(pars, e) * u.Unit(D.REF[self.pr["mkind"]])).to(self.pr["munit"])


def do_threads(case, mon):
    import naima

    cpus = os.cpu_count() or 1
    tmp = tempfile.mkdtemp(prefix="vmon32")
    try:
        log = os.path.join(tmp, "log")
        m = Census(case["pr"], log)
        er = u.Quantity([m.e[0], m.e[-1]], "eV")

        def count(what):
            got = set()
            if os.path.exists(log):
                with open(log) as fh:
                    got = {int(x) for x in fh}
                os.remove(log)
            # one process works by itself
            mon.check("run", got == {cpus} or (cpus == 1 and not got), "%s in %s processes, %d cores" % (what, got, cpus))

        s, pos = F.silent(naima.run_sampler, nrun=1, data_table=F.tables(case["pr"]), p0=[1.0, 0.3], model=m,
                          nwalkers=6, nburn=1, guess=False)
        count("run")
        naima.plot_fit(s, e_range=er, n_samples=4, e_npoints=3)
        count("bands")
    finally:
        shutil.rmtree(tmp)


def do_run(case, mon):
    import naima

    if not F.distinct(case["pr"]):
        return mon.mark_trivial()
    w = case["what"]
    mon.cls("run", w)
    if w == "threads":
        return do_threads(case, mon)

    def go(n, f, **kw):
        m = F.Model(case["pr"])
        np.random.seed(case["rs"] % 2**31)
        kw = {**dict(data_table=F.tables(case["pr"]), p0=[1.0, 0.3], model=m, threads=1), **n, **kw}
        s, pos = F.silent(f, **kw)
        return s, pos, m

    if w == "other":
        kw = {k: v for k, v in FIT.items() if k in case["omit"]}
        n = dict(nwalkers=6, nburn=2, nrun=3)
        s, p, m = go(n, naima.run_sampler)
        s2, p2, m2 = go(n, naima.run_sampler, **kw)
        mon.close("run", np.asarray(s.get_chain()), np.asarray(s2.get_chain()), rtol=0, msg="chain without %s" % sorted(kw))
        mon.check("run", list(s.labels) == list(s2.labels) and s.run_info["guess"] is True, "labels or guess")
        mon.check("run", m.calls == m2.calls, "evaluations")
        return
    n = dict(nwalkers=6, nburn=0, nrun=2, guess=False)
    n.pop(w)
    if w == "nwalkers":
        s, p, m = go(n, naima.run_sampler)
        mon.check("run", s.get_chain().shape == (2, 500, 2) and s.run_info["n_walkers"] == 500,
                  "walkers: chain %s" % (s.get_chain().shape,))
    elif w == "nrun":
        s, p, m = go(n, naima.run_sampler)
        mon.check("run", s.get_chain().shape == (100, 6, 2), "steps: chain %s" % (s.get_chain().shape,))
        s, _ = F.silent(naima.run_sampler, sampler=s, pos=p)
        mon.check("run", s.get_chain().shape == (100, 6, 2), "steps of a second run: %s" % (s.get_chain().shape,))
    else:
        n.pop("nrun")
        s, p, m = go(n, naima.get_sampler)
        s2, p2, m2 = go(n, naima.get_sampler, nburn=100)
        mon.check("run", m.calls == m2.calls and len(m.calls) > 500 and s.run_info["n_burn"] == 100,
                  "%d evaluations of the burn-in" % len(m.calls))
        mon.close("run", np.asarray(p.coords), np.asarray(p2.coords), rtol=0, msg="state after the burn-in")


def do_results(case, mon):
    import naima

    if not F.distinct(case["pr"]):
        return mon.mark_trivial()
    s, m = sampler(case, labels=case["labels"])
    tmp = tempfile.mkdtemp(prefix="vmon32")
    try:
        kw = {k: v for k, v in RESULTS.items() if k in case["omit"]}
        a = F.silent(naima.save_results_table, os.path.join(tmp, "a"), s)
        c = F.silent(naima.save_results_table, os.path.join(tmp, "c"), s, **kw)
        mon.check("results", a.colnames == c.colnames and all(
            np.array_equal(np.asarray(a[k]), np.asarray(c[k]), **({} if a[k].dtype.kind in "US" else {"equal_nan": True}))
            for k in a.colnames) and str(a.meta) == str(c.meta), "tables without %s differ" % sorted(kw))
        ls = sorted(os.listdir(tmp))
        if not mon.check("results", len(ls) == 2 and ls[0][1:] == ls[1][1:], "files %s" % ls):
            return
        fa, fc = (open(os.path.join(tmp, x)).read() for x in ls)
        mon.check("results", fa == fc and fa.startswith("# %ECSV"), "files without %s differ" % sorted(kw))
        # without overwriting
        s2, _ = sampler(dict(case, rs=case["rs"] + 1), labels=case["labels"])
        try:
            F.silent(naima.save_results_table, os.path.join(tmp, "a"), s2)
        except Exception as e:
            mon.cls("overwriting", type(e).__name__)
        mon.check("results", open(os.path.join(tmp, ls[0])).read() == fa, "overwritten")
        f = os.path.join(tmp, "r.h5")
        naima.save_run(f, s)
        naima.save_run(f, s2)
        r = naima.read_run(f)
        mon.check("results", np.array_equal(r.get_chain(), s.get_chain()) and r.modelfn is None, "run overwritten")
        import h5py

        with h5py.File(f, "r") as h:
            mon.check("results", h["mcmc/chain"].compression == "gzip" if "mcmc/chain" in h else True,
                      "compression is the default")
    finally:
        shutil.rmtree(tmp)


def do_plot(case, mon):
    import naima

    if not F.distinct(case["pr"]):
        return mon.mark_trivial()
    s, m = sampler(case, nw=12, nrun=12, labels=case["labels"])
    fun = case["fun"]
    mon.cls("figure of", fun)
    seed = case["rs"] % 2**31
    if fun == "corner":
        a, c = naima.plot_corner(s), naima.plot_corner(s, show_ML=True)
        figures(mon, "plot_corner", a, c)
        return
    names = ["modelidx", "blobidx"]
    kw = {k: v for k, v in PLOT.items() if k in case["omit"]}
    if fun == "blob":
        kw = {k: v for k, v in kw.items() if k in ("last_step", "label")}
        if "modelidx" in case["omit"]:
            kw["blobidx"] = 0
        f = naima.plot_blob
    else:
        f = naima.plot_fit
    np.random.seed(seed)
    a = f(s)
    np.random.seed(seed)
    c = f(s, **kw)
    figures(mon, "plot_%s without %s" % (fun, sorted(kw)), a, c)
    mon.seen("figure")
    if fun == "fit":
        # data and residuals
        kinds = [k.replace("differential ", "") for k in (m.kind, case["pr"]["mkind"])]
        if kinds[0] == kinds[1]:
            mon.check("figure", len(a.axes) == 2, "data and residuals by default: %d axes" % len(a.axes))
        er = u.Quantity([m.e[0], m.e[-1]], "eV")
        for g, k in ((a, {"confs": [1]}), (a, {"n_samples": 3})):
            np.random.seed(seed)
            x = f(s, e_range=er, threads=1, **k)
            np.random.seed(seed)
            y = f(s, e_range=er, threads=1, e_npoints=100, **k)
            figures(mon, "plot_fit without e_npoints", x, y)
    del names


def do_data(case, mon):
    import naima

    if not F.distinct(case["pr"]):
        return mon.mark_trivial()
    t = F.tables(case["pr"])
    kw = {k: v for k, v in DATA.items() if k in case["omit"]}
    figures(mon, "plot_data without %s" % sorted(kw), naima.plot_data(t), naima.plot_data(t, **kw))


def do_fitter(case, mon):
    import matplotlib.pyplot as plt
    import naima.model_fitter as MF

    if not F.distinct(case["pr"]):
        return mon.mark_trivial()
    sigs = []
    show, old = plt.show, plt.rcParams["interactive"]
    plt.show = lambda *a, **k: sigs.append((figsig(plt.gcf()), plt.gcf()))
    case["pr"]["data_sed"] = True
    er = u.Quantity([1, 100], "TeV")
    try:
        for kw in ({}, {"sed": True, "auto_update": True, "e_range": None, "labels": None},
                   {"e_range": er}, {"e_range": er, "e_npoints": 100}):
            m = F.Model(case["pr"])
            # without data, as the energies of the data are not those of the model
            f = MF.InteractiveModelFitter(lambda p, d: F.Model(case["pr"]).values(p, d["energy"].to("eV").value) * u.Unit(
                D.REF[case["pr"]["mkind"]]), [1.0, 0.3], **kw)
            mon.check("fitter", f.autoupdate is True or bool(f.autoupdate), "automatic update by default")
            del m
        mon.check("fitter", equal(sigs[0][0], sigs[1][0]), "fitter without arguments")
        mon.check("fitter", equal(sigs[2][0], sigs[3][0]), "fitter without e_npoints")
    finally:
        plt.show = show
        plt.rcParams["interactive"] = old
