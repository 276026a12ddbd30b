"""C25: calls leave the caller's objects and the process as they found them."""
import os
import shutil
import tempfile

import numpy as np
from astropy import units as u
from astropy.table import Table

from .. import build as B
from .. import fit as F
from ..core import logu, sig
from ..purity import Guard, diff, snap
from ..refs import data as D

RULE = """Every public function is called on random inputs within a guard that takes a
deep image of all arguments (nested lists, tables, metadata, read-only arrays,
dictionaries of options), of the default values of all functions and the public
constants of naima, and of the state of the process (matplotlib settings, interactive
mode, figures, warning filters, numpy error settings, log level, signal handlers,
environment, working directory, open files), before and after: data tables, models,
fits, saving, reading, plots, diagnostic files, the interactive fitter, the Sherpa
models; also when the model of the user fails at some evaluation. Later edits of
the arguments by the caller do not reach the results. Non-trivial: every case."""
REQUIRED = ["arguments", "process-state", "constants", "files", "figures", "after-failure", "detached", "usable",
            "random-numbers"]
CASE_LIMIT = 150
KINDS = ["data", "model", "fit", "plot", "save", "gui", "sherpa"]
LABELS = [["norm", "index"], ["log10(norm)", "b"], ["amplitude"], ["a", "b"], None]

CONFS = [[3, 1], [1, 3], [1, 2], [2, 1, 0.5], [1]]


def gen(rng, tier):
    n = {"quick": 130, "thorough": 4000}[tier]
    out = []
    for i in range(n):
        k = KINDS[i % len(KINDS)] if rng.random() < 0.7 else rng.choice(KINDS[:5])
        c = {"what": k, "rs": rng.randrange(1 << 30), "ro": rng.random() < 0.3}
        if k == "data":
            c["t"] = [D.gen_table(rng, j, rng.choice([["flux", "differential flux"], ["power", "differential power"]]))
                      for j in range(2)]
            c["sed"] = rng.choice([None, True, False])
        elif k == "model":
            c["r"] = B.gen_radiative(rng, rng.choice(["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay",
                                                      "PionDecayKelner06", "InverseCompton"]))
            c["r"]["useLUT"] = False if c["r"]["type"] == "PionDecay" else None
            if c["r"]["type"] != "PionDecay":
                del c["r"]["useLUT"]
            c["e"] = B.gen_energies(rng, c["r"]["type"], n=rng.choice([1, 3, 6]), sort=rng.random() < 0.5)
            c["z"] = rng.choice([0.02, 0.3, 1.0])
        elif k == "sherpa":
            c["cls"] = rng.choice(["InverseCompton", "Synchrotron", "Bremsstrahlung", "PionDecay"])
            c["n"] = rng.choice([2, 5])
            c["bins"] = rng.random() < 0.5
        else:
            p = F.gen_problem(rng, npt=rng.choice([3, 8]))
            p.update(p0=rng.choice(["list", "array", "tuple", "ints"]), labels=rng.choice(LABELS),
                     lt=rng.choice(["list", "list", "tuple"]), nw=rng.choice([4, 8]), nburn=rng.choice([0, 2]),
                     nrun=rng.choice([1, 3]), guess=rng.random() < 0.7, prefit=rng.random() < 0.3,
                     fail=rng.choice([None, None, 0, 1, 3, rng.randint(2, 40)]), threads=rng.choice([1, 1, 1, 2]),
                     exc=rng.choice(sorted(F.EXC)), single=rng.random() < 0.4, noplot=rng.random() < 0.3)
            if p["threads"] > 1:
                p["fail"] = None
            c.update(p)
        out.append(c)
    return out


def ro(case, x):
    """Half of the arrays that are passed cannot be written"""
    if case["ro"] and hasattr(x, "flags"):
        x.flags.writeable = False
    return x


class Model(F.Model):
    """Fails at one of its evaluations"""
    at = None
    n = 0

    def __call__(self, pars, data):
        self.n += 1
        if self.at is not None and self.n > self.at:
            raise self.exc("injected failure")
        return super().__call__(pars, data)


def p0_of(case):
    p = [1.3, 0.4]
    return {"list": p, "array": ro(case, np.array(p)), "tuple": tuple(p), "ints": [1, 2]}[case["p0"]]


def labels_of(case):
    lab = case["labels"]
    return None if lab is None else (list if case["lt"] == "list" else tuple)(lab)


def model_of(case, at=None):
    m = Model(case)
    m.at = at
    m.exc = F.EXC[case.get("exc", "RuntimeError")]
    return m


def tables_of(case, k=0):
    t = [D.to_table(s, case["ts"] + i) for i, s in enumerate(case["t"])]
    for x in t:
        x.meta["note"] = {"list": [1, 2]}
    return t[0] if len(t) == 1 else t


def run(case, mon):
    import matplotlib.pyplot as plt

    np.random.seed(case["rs"] % 2**31)
    g = Guard(mon)
    mon.cls("what", case["what"])
    tmp = tempfile.mkdtemp(prefix="c25_")
    try:
        globals()["run_" + case["what"]](case, mon, g, tmp)
    finally:
        plt.close("all")
        shutil.rmtree(tmp)


def run_data(case, mon, g, tmp):
    import naima
    from naima import utils

    t = [D.to_table(s, case["rs"] + i) for i, s in enumerate(case["t"])]
    fam = [s["kind"].split()[-1] for s in case["t"]]
    for x in t:
        x.meta["note"] = {"list": [1]}
    v = g("validate_data_table", utils.validate_data_table, t[0], sed=case["sed"])
    w = g("validate_data_table", utils.validate_data_table, v, sed=case["sed"])
    if fam[0] == fam[1]:
        v2 = g("validate_data_table", utils.validate_data_table, t, sed=case["sed"])
        i0 = snap(v2)
        for x in t:
            for c in x.colnames:
                if c != "ul":
                    x[c][:] = x[c] * 3 if c != "group" else 5
        mon.check("detached", snap(v2) == i0, "validated table follows edits of the input", where=diff(i0, snap(v2)))
    else:
        g("validate_data_table", utils.validate_data_table, t, may_fail=True)
    i0 = snap(v)
    for c in ("energy", "flux", "flux_error_lo", "energy_error_hi", "cl", "group"):
        w[c][:] = w[c] * 2
    mon.check("detached", snap(v) == i0, "edits of the validated table reach its input", where=diff(i0, snap(v)))
    # lo and hi are different columns
    h0 = snap(np.asarray(w["flux_error_hi"].value))
    w["flux_error_lo"][:] = w["flux_error_lo"] * 2
    mon.check("detached", snap(np.asarray(w["flux_error_hi"].value)) == h0, "lower and upper errors share memory")
    a = {k: ro(case, v[c].copy()) for k, c in [("energy", "energy"), ("flux", "flux"), ("flux_error", "flux_error_lo")]}
    bt = g("build_data_table", naima.build_data_table, ul=ro(case, np.array(v["ul"])), cl=0.9, **a)
    i0 = snap(bt)
    if not case["ro"]:
        for x in a.values():
            x *= 2
        mon.check("detached", snap(bt) == i0, "built table follows edits of the input", where=diff(i0, snap(bt)))
    e = ro(case, v["energy"].copy())
    g("generate_energy_edges", naima.utils.generate_energy_edges, e, groups=ro(case, np.array(v["group"])))
    g("generate_energy_edges", naima.utils.generate_energy_edges, e)
    g("sed_conversion", utils.sed_conversion, e, v["flux"].unit, case["sed"])
    g("trapz_loglog", utils.trapz_loglog, ro(case, v["flux"].copy()), e)
    g("trapz_loglog", utils.trapz_loglog, ro(case, np.array([[1.0, 0.0, 2.0], [1.0, 1.0, 1.0]])),
      ro(case, np.array([1.0, 1.0, 3.0])), axis=1, intervals=True)
    if fam[0] == fam[1]:
        g("estimate_B", naima.estimate_B, t[0], t[1], photon_energy_density=3 * u.eV / u.cm**3)
    g("plot_data", naima.plot_data, t[0], sed=bool(case["sed"]), new_figures=1,
      ulim_opts={"capsize": 3}, errorbar_opts={"mfc": "r"}, e_unit=u.eV)
    bad = Table(t[1])
    bad.remove_column("flux")
    g("validate_data_table", utils.validate_data_table, bad, may_fail=True)
    mon.seen("usable")


def run_model(case, mon, g, tmp):
    import naima
    import naima.models as nm
    import naima.radiative as nr

    spec = case["r"]
    s = dict(spec)
    cls = getattr(nr, s.pop("type"))
    pspec = dict(s.pop("particle"))
    pcls = getattr(nm, pspec.pop("type"))
    pk = {k: B.Q(v) for k, v in pspec.items()}
    pd = g("particle", pcls, **pk)
    kw = {k: (B.seeds(v) if k == "seed_photon_fields" else B.Q(v)) for k, v in s.items()}
    e = ro(case, B.Q(case["e"]).copy())
    keep = [pk, kw]
    r = g(spec["type"], cls, pd, watch=keep, **kw)
    dist = 1.5 * u.kpc
    f = g("flux", r.flux, e, distance=dist, watch=keep)
    g("sed", r.sed, {"energy": e}, distance=dist, watch=keep)
    g("sed", r.sed, Table({"energy": e}), distance=0, watch=keep)
    f2 = g("flux", r.flux, e, distance=dist, watch=keep)
    mon.check("usable", np.array_equal(f.value, f2.value), "second evaluation differs")
    g("particle", pd, e, watch=keep)
    if spec["type"] == "InverseCompton":
        name = B.seed_name(spec["seed_photon_fields"][0]) if not isinstance(spec["seed_photon_fields"], str) else "CMB"
        g("flux-seed", r.flux, e, seed=name, distance=dist, watch=keep)
        g("flux-seed", r.flux, e, seed="nothing", may_fail=True, watch=keep)
        g("sed-seed", r.sed, e, seed=0, distance=dist, watch=keep)
    if hasattr(r, "compute_We"):
        g("compute_We", r.compute_We, Eemin=1 * u.TeV, Eemax=3 * u.TeV, watch=keep)
        g("set_We", r.set_We, 1e47 * u.erg, Eemin=1 * u.TeV, watch=keep)
        g("set_We", r.set_We, 1e47 * u.erg, amplitude_name="nothing", may_fail=True, watch=keep)
    if hasattr(r, "compute_Wp"):
        g("compute_Wp", r.compute_Wp, Epmin=1 * u.TeV, watch=keep)
        g("set_Wp", r.set_Wp, 1e47 * u.erg, Epmin=1 * u.TeV, watch=keep)
    g("flux", r.flux, 3 * u.m, may_fail=True, watch=keep)
    g("flux", r.flux, e, distance=3 * u.s, may_fail=True, watch=keep)
    ev = np.sort(np.unique(e.value)) * e.unit
    if len(ev) > 3:
        tv = ro(case, ev.value**-2 / u.eV)
        ev = ro(case, ev)
        t = g("TableModel", nm.TableModel, ev, tv)
        g("TableModel", t, ev[::-1])
    ebl = g("EblAbsorptionModel", nm.EblAbsorptionModel, case["z"])
    g("transmission", ebl.transmission, ro(case, np.array([1.0, 0.1, 30.0]) * u.TeV))
    for fn, a in ((naima.uniform_prior, (0.3, 0, 1)), (naima.normal_prior, (0.3, 0.0, 1.0)),
                  (naima.log_uniform_prior, (0.3, 0.1, 1.0))):
        g("prior", fn, *a)


def start(case, mon, g, at=None, **k):
    """A sampler, and the arguments it was built from"""
    import naima

    m = model_of(case, at)
    prior = F.Prior(case["prior"]) if case["prior"] else None
    t, p0, lab = tables_of(case), p0_of(case), labels_of(case)
    out = g("get_sampler", F.silent, naima.get_sampler, data_table=t, p0=p0, model=m, prior=prior, labels=lab,
            nwalkers=case["nw"], nburn=case["nburn"], guess=case["guess"], prefit=case["prefit"],
            threads=case["threads"], data_sed=case["data_sed"], may_fail=at is not None, **k)
    return m, out, (t, p0, lab)


def record(s):
    return snap([np.array(s.get_chain()), np.array(s.get_log_prob()), list(s.labels), s.data, s.run_info,
                 [[F.outputs("list", x) for x in st] for st in (s.get_blobs() if len(s.get_chain()) else [])]])


def run_fit(case, mon, g, tmp):
    import naima

    if not F.distinct(case):
        return mon.mark_trivial()
    # with a failure
    if case["fail"] is not None:
        m, out, args = start(case, mon, g, at=case["fail"])
        if out is not None:
            g("run_sampler", F.silent, naima.run_sampler, sampler=out[0], pos=out[1], nrun=case["nrun"], may_fail=True)
            m.at = None
            # the sampler is still usable
            s, _ = g("run_sampler", F.silent, naima.run_sampler, sampler=out[0], pos=out[1], nrun=2)
            mon.check("usable", np.asarray(s.get_chain()).shape[0] >= 2, "no chain after a failed run")
    m, (s, pos), (t, p0, lab) = start(case, mon, g)
    pos_i = snap(np.array(pos.coords if hasattr(pos, "coords") else pos))
    s, pos2 = g("run_sampler", F.silent, naima.run_sampler, sampler=s, pos=pos, nrun=case["nrun"])
    mon.check("arguments", snap(np.array(pos.coords if hasattr(pos, "coords") else pos)) == pos_i, "run_sampler moves the start")
    # edits by the caller
    i0 = record(s)
    if isinstance(p0, (list, np.ndarray)) and getattr(getattr(p0, "flags", None), "writeable", True):
        p0[0] = 77
    if isinstance(lab, list):
        lab[0] = "changed"
        lab.append("more")
    for x in t if isinstance(t, list) else [t]:
        for c in x.colnames:
            if c not in ("ul", "group"):
                x[c][:] = x[c] * 3
    mon.check("detached", record(s) == i0, "the run follows later edits of its arguments", where=diff(i0, record(s)))
    t, p0, lab = tables_of(case), p0_of(case), labels_of(case)
    s, _ = g("run_sampler-all", F.silent, naima.run_sampler, nrun=case["nrun"], data_table=t, p0=p0,
             model=model_of(case), prior=None, labels=lab, nwalkers=case["nw"], nburn=case["nburn"],
             threads=case["threads"], guess=case["guess"], data_sed=case["data_sed"])
    mon.seen("usable")


def sampled(case, mon, g):
    import naima

    case = dict(case, threads=1)
    m, (s, pos), _ = start(case, mon, g)
    s, pos = F.silent(naima.run_sampler, sampler=s, pos=pos, nrun=max(2, case["nrun"]))
    return m, s


def pure(name, mon, s, i0):
    i1 = record(s)
    mon.check("arguments", i0 == i1, "%s changes the run" % name, where=diff(i0, i1))


def run_plot(case, mon, g, tmp):
    import matplotlib.pyplot as plt
    import naima

    if not F.distinct(case) or case["form"] in ("scalars",):
        case = dict(case, form="bare") if F.distinct(case) else None
        if case is None:
            return mon.mark_trivial()
    m, s = sampled(case, mon, g)
    i0 = record(s)
    er = [s.data["energy"][0] / 2, s.data["energy"][-1] * 2]
    rng = np.random.RandomState(case["rs"] % 2**31)
    todo = ["fit", "fit-range", "fit-opts", "blob", "chain", "corner", "data", "dist", "data-fig"]
    rng.shuffle(todo)
    for w in todo[:6]:
        at = case["fail"] if w in ("fit-range",) else None
        if at is not None:
            m.n, m.at = 0, at
        if w == "fit":
            g("plot_fit", naima.plot_fit, s, n_samples=rng.choice([None, 5]), ML_info=bool(rng.randint(2)), new_figures=1)
        elif w == "fit-range":
            g("plot_fit-range", naima.plot_fit, s, e_range=er, n_samples=3, e_npoints=5, threads=1, may_fail=at is not None,
              new_figures=1)
        elif w == "fit-opts":
            g("plot_fit-opts", naima.plot_fit, s, confs=list(CONFS[rng.randint(len(CONFS))]), n_samples=None,
              **({"e_range": er, "threads": 1, "e_npoints": 5} if rng.rand() < 0.5 else {}), ulim_opts={"height_fraction": 0.5},
              errorbar_opts={"mec": "g"}, figure=plt.figure(), e_unit=u.GeV, new_figures=0)
        elif w == "blob":
            g("plot_blob", naima.plot_blob, s, blobidx=0, label="model", new_figures=1, n_samples=5)
        elif w == "chain":
            g("plot_chain", naima.plot_chain, s, p=int(rng.randint(2)), new_figures=1)
        elif w == "corner":
            g("plot_corner", naima.plot_corner, s, show_ML=bool(rng.randint(2)), quantiles=[0.5])
            g("plot_corner", naima.plot_corner, s, nonsense=[1], may_fail=True)
        elif w == "data":
            g("plot_data", naima.plot_data, [Table(s.data)] if rng.randint(2) else s.data, new_figures=1,
              ulim_opts={}, errorbar_opts={"ms": 3})
        elif w == "data-fig":
            g("plot_data", naima.plot_data, s.data, figure=plt.figure(), sed=False, new_figures=0)
        elif w == "dist":
            x = ro(case, rng.normal(size=200) * u.erg)
            g("plot_distribution", naima.plot.plot_distribution, x, "label [x]", new_figures=1)
        m.at = None
        pure(w, mon, s, i0)
        plt.close("all")
    mon.seen("usable")


def run_save(case, mon, g, tmp):
    import naima

    if not F.distinct(case):
        return mon.mark_trivial()
    m, s = sampled(case, mon, g)
    i0 = record(s)
    f = os.path.join(tmp, "run.h5")
    g("save_run", F.silent, naima.save_run, f, s)
    pure("save_run", mon, s, i0)
    g("save_run", F.silent, naima.save_run, os.path.join(tmp, "nowhere", "x.h5"), s, may_fail=True)
    pure("save_run", mon, s, i0)
    r = g("read_run", naima.read_run, f, modelfn=m)
    ir = record(r)
    g("save_results_table", F.silent, naima.save_results_table, os.path.join(tmp, "res"), s, include_blobs=True)
    pure("save_results_table", mon, s, i0)
    g("save_results_table", F.silent, naima.save_results_table, os.path.join(tmp, "res2"), r, convert_log=False)
    if not case["noplot"]:
        bl = ["one"] if case["single"] else None
        mi = [0] if case["single"] else None
        sed = [True] if case["single"] else True
        g("save_diagnostic_plots", F.silent, naima.save_diagnostic_plots, os.path.join(tmp, "dia"), r if case["ro"] else s,
          blob_labels=bl, modelidxs=mi, sed=sed, pdf=case["ro"], dpi=30, new_figures=0)
        pure("save_diagnostic_plots", mon, s, i0)
    mon.check("arguments", record(r) == ir, "analysis changes the run that was read", where=diff(ir, record(r)))
    mon.seen("usable")


def run_gui(case, mon, g, tmp):
    import matplotlib.pyplot as plt
    import naima

    if not F.distinct(case):
        return mon.mark_trivial()
    old = plt.show
    plt.show = lambda *a, **k: None
    try:
        t, p0, lab = tables_of(case), p0_of(case), labels_of(case)
        m = model_of(case)
        im = g("InteractiveModelFitter", F.silent, naima.InteractiveModelFitter, m, p0, data=t, labels=lab, sed=bool(case["ro"]))
        before = snap([t, p0, lab])
        F.silent(im.do_fit, None)
        F.silent(im.update, None)
        mon.check("arguments", snap([t, p0, lab]) == before, "a fit changes the arguments of the fitter")
        if case["fail"] is not None:
            g("InteractiveModelFitter", F.silent, naima.InteractiveModelFitter, model_of(case, case["fail"]), p0, data=t,
              labels=lab, may_fail=True)
            start(case, mon, g, at=case["fail"], interactive=True)
        start(dict(case, threads=1), mon, g, interactive=True)
    finally:
        plt.show = old
    mon.seen("usable")


def run_sherpa(case, mon, g, tmp):
    import naima.sherpa_models as sm

    rng = np.random.RandomState(case["rs"] % 2**31)
    m = g("sherpa", getattr(sm, case["cls"]))
    p = [q.val for q in m.pars]
    lo = {"Synchrotron": 1e-3, "InverseCompton": 1e6, "Bremsstrahlung": 1e6, "PionDecay": 1e8}[case["cls"]]
    x = np.geomspace(lo, lo * 100, case["n"] + 1) * (1 + 0.01 * rng.uniform())
    a, b = ro(case, x[:-1].copy()), ro(case, x[1:].copy())
    for _ in range(2):
        if case["bins"]:
            g("sherpa-calc", m.calc, p, a, xhi=b)
            g("sherpa-call", m, a, b)
        else:
            g("sherpa-calc", m.calc, p, a)
            g("sherpa-call", m, a)
    g("sherpa-guess", m.guess, ro(case, np.ones(len(a))), a, *( [b] if case["bins"] else []))
    mon.seen("usable")
