"""C24: plots show the data and the models."""
import os
import random
import shutil
import tempfile

import numpy as np
from astropy import units as u

from .. import fit as F

RULE = """Figures of random data tables (one to three, any form and unit, upper limits,
groups, errors larger than the fluxes), and of short MCMC runs with every form of
model output, as SED or differential spectrum, in random energy units, with samples,
confidence bands or the best model only, from the record or recomputed over an energy
range, on new or existing figures. A monitor reads back what was drawn on the axes
(markers, error bars, limits, curves, bands, histograms, text). Oracles: the generated
data converted independently; the most probable sample of the record; the recorded
samples and their quantiles; the model evaluated directly. Non-trivial: every case."""
REQUIRED = ["points", "y-errors", "x-errors", "upper-limits", "best-model", "samples", "bands",
            "residuals", "traces", "quantiles", "corner", "files", "x-limits", "axis-label",
            "energy-range", "figure", "saved-figures", "scalar-output", "added-data"]
CASE_LIMIT = 150
EV = 1.602176634e-12
FORMS = ["bare", "tuple", "list", "scalars", "ndmix", "samelen", "xy"]


def gen(rng, tier):
    n = 360 if tier == "quick" else 8000
    out = []
    for i in range(n):
        kind = ["data", "fit", "fit", "chain", "data", "fit", "blob", "corner", "range", "add", "diag", "own"][i % 12]
        p = F.gen_problem(rng, npt=rng.choice([2, 3, 5]))
        p["form"] = rng.choice(FORMS)
        if rng.random() < 0.4:
            for t in p["t"]:
                # points that are compatible with zero
                t["lo"] = [abs(f) * rng.choice([1.0, 1.0, 1.5, 0.3, 0.3]) for f in t["flux"]]
                if t["sym"]:
                    t["hi"] = t["lo"]
        p.update(kind=kind, nw=rng.choice([4, 6, 12]), nrun=rng.choice([3, 6, 12]),
                 sed=rng.choice([True, False]), eu=rng.choice([None, "eV", "TeV", "erg", "keV"]),
                 last=rng.choice([None, True, False]), mode=rng.choice(["samples", "confs", "ML"]),
                 confs=rng.choice([[1], [3, 1], [1, 2], [3, 1, 0.5], [0.2, 7]]),
                 ns=rng.choice([1, 5, 30]), labels=rng.choice(
                     [None, ["norm", "index"], ["log10(norm)", "log(b)"], ["my log10(x)", "b_1"]]),
                 input=rng.choice(["table", "sampler", "data"]), pdf=rng.random() < 0.3,
                 info=rng.random() < 0.3, res=rng.choice([None, None, True, False]), idx=rng.randrange(4))
        out.append(p)
    return out


class Model(F.Model):
    def __call__(self, pars, data):
        if self.pr["form"] != "xy":
            return super().__call__(pars, data)
        e = data["energy"].to("eV").value
        m = (self.values(pars, e) * u.Unit(F.D.REF[self.pr["mkind"]])).to(self.pr["munit"])
        return m, (self.grid() * u.eV, self.xy(pars) * u.Unit(F.D.REF[self.pr["mkind"]])), pars[0] * u.erg

    def grid(self):
        if self.pr["kind"] == "own":
            # the energies of the data within limits that leave out some of them
            e = np.unique(self.e)
            edges = np.concatenate([[e[0] / 2], np.sqrt(e[1:] * e[:-1]), [e[-1] * 2]])
            n = len(e)
            i, j = [(0, n), (1, n), (0, n - 1), (n // 2, n // 2 + 1)][self.pr["idx"]]
            if i >= j:
                i, j = 0, n
            return np.sort(np.concatenate([np.geomspace(edges[i], edges[j], 6), e[i:j]]))
        return np.geomspace(self.e[0] / 2, self.e[-1] * 2, 9)

    def xy(self, pars):
        y = self.values(pars, self.grid()) * 1.5
        void = self.pr.get("void")
        if void == "zero":
            y = y * 0
        elif void == "end":
            y[len(y) // 2:] = 0
        elif void == "negative":
            y = -y
        return y


def factor(kind, e, sed):
    """From the reference unit of a kind to what is plotted"""
    diff = kind.startswith("diff")
    k = np.ones(len(e))
    if sed and diff:
        k = e**2
    if not sed and not diff:
        k = e**-2.0
    return k * (EV if sed else 1e12)


def eunit(case, data):
    un = u.Unit(case["eu"]) if case["eu"] else data["energy"].unit
    return un, float((1 * u.eV).to(un).value)


# -- reading the axes

def marks(ax):
    """(x, y) of all markers that are not caps or arrows"""
    out = []
    for ln in ax.lines:
        mk = ln.get_marker()
        if mk in (None, "None", "", " ") or not isinstance(mk, str) or mk in "|_":
            continue
        out += list(zip(*map(np.asarray, ln.get_data(orig=True))))
    return np.array(out, float).reshape(-1, 2)


def arrows(ax):
    out = []
    for ln in ax.lines:
        if not isinstance(ln.get_marker(), str) and ln.get_marker() is not None:
            out += list(zip(*map(np.asarray, ln.get_data(orig=True))))
    return np.array(out, float).reshape(-1, 2)


def segments(ax):
    """All straight bars: arrays of (x0, y0, x1, y1)"""
    out = []
    from matplotlib.collections import LineCollection

    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                s = np.asarray(s, float)
                if len(s) == 2:
                    out.append([*s[0], *s[1]])
    return np.array(out, float).reshape(-1, 4)


def curves(ax, n):
    out = []
    for ln in ax.lines:
        x, y = map(np.asarray, ln.get_data(orig=True))
        if ln.get_linestyle() not in ("None", "", " ") and len(x) == n:
            if ln.get_marker() in (None, "None", "", " "):
                out.append((np.array(x, float), np.array(y, float), ln))
    return out


def has_row(rows, want, rtol=1e-6, atol=None):
    """Is each of `want` among `rows`? Returns those that are not"""
    miss = []
    for w in want:
        w = np.asarray(w, float)
        tol = rtol * np.abs(w) + (0 if atol is None else atol)
        if not len(rows) or not np.any(np.all(np.abs(rows - w) <= tol, axis=1)):
            miss.append(w.tolist())
    return miss


def check_data(mon, ax, r, kind, sed, xs, what, exact=True, others=0, autolim=True):
    """The data of `r` are on the axes"""
    e = r["energy"]
    k = factor(kind, e, sed)
    y, lo, hi = r["flux"] * k, r["flux_error_lo"] * k, r["flux_error_hi"] * k
    x = e * xs
    ok = ~r["ul"]
    mk = marks(ax)
    want = list(zip(x[ok], y[ok]))
    miss = has_row(mk, want)
    mon.seen("points", max(1, len(want)))
    if miss:
        mon.violate("points", "%s: points %s not drawn; drawn: %s" % (what, miss[:3], mk[:4].tolist()))
    if exact:
        mon.check("points", len(mk) == len(want), "%s: %d points drawn of %d" % (what, len(mk), len(want)))
    seg = segments(ax)
    lo2 = np.where((lo >= y) & (y >= 0), y * (1 - 1e-7), lo)
    w = [(x[i], y[i] - lo2[i], x[i], y[i] + hi[i]) for i in np.where(ok)[0]]
    miss = []
    for i, row in zip(np.where(ok)[0], w):
        a = np.abs(seg - np.array(row)) if len(seg) else np.empty((0, 4))
        # (the lower end of a bar that starts below zero is not on the axes)
        tol = np.array([1e-6 * x[i], 2e-6 * y[i] if y[i] >= 0 else np.inf, 1e-6 * x[i],
                        2e-6 * (abs(y[i]) + hi[i])])
        if not np.any(np.all(a <= tol, axis=1)):
            miss.append(row)
    mon.seen("y-errors", max(1, len(w)))
    if miss:
        mon.violate("y-errors", "%s: error bars %s not drawn; drawn %s" % (what, miss[:2], seg[:6].tolist()))
    w = [(x[i] - r["energy_error_lo"][i] * xs, y[i], x[i] + r["energy_error_hi"][i] * xs, y[i])
         for i in range(len(e))]
    miss = has_row(seg, w)
    mon.seen("x-errors", max(1, len(w)))
    if miss:
        mon.violate("x-errors", "%s: energy bars %s not drawn; drawn %s" % (what, miss[:2], seg[:6].tolist()))
    ul = np.where(r["ul"])[0]
    arr = arrows(ax)
    if len(ul):
        w = [(x[i], y[i] * 0.75, x[i], y[i]) for i in ul]
        miss = has_row(seg, w)
        mon.check("upper-limits", not miss, "%s: limits %s not drawn; drawn %s" % (
            what, miss[:2], seg[:8].tolist()))
        w = [(x[i], y[i] * 0.75) for i in ul]
        if len(arr):
            mon.check("upper-limits", not has_row(arr, w) or not has_row(mk, w),
                      "%s: arrows at %s instead of %s" % (what, arr[:3].tolist(), w[:3]))
    if autolim:
        a, b = sorted(ax.get_xlim())
        mon.check("x-limits", a <= (x - r["energy_error_lo"] * xs).min() * (1 + 1e-9)
                  and b >= (x + r["energy_error_hi"] * xs).max() * (1 - 1e-9),
                  "%s: energies from %g to %g outside of the axis (%g, %g)" % (
                      what, x.min(), x.max(), a, b))
    mon.check("axis-label", ax.get_xscale() == "log" and ax.get_yscale() == "log",
              what + ": axes are not logarithmic")


def label_unit(text):
    s = text.split("[")[-1].split("]")[0].replace("$", "").replace("\\mathrm{", "").rstrip("}")
    return s


def check_labels(mon, ax, xun, kind, sed, what, xax=None):
    mon.check("axis-label", u.Unit(label_unit((xax or ax).get_xlabel())) == xun,
              "%s: x label %r, unit %s" % (what, (xax or ax).get_xlabel(), xun))
    lum = "power" in kind
    want = u.Unit(("erg/s" if lum else "erg/(s cm2)") if sed else
                  ("1/(s TeV)" if lum else "1/(s TeV cm2)"))
    mon.check("axis-label", want.to_string("latex_inline") in ax.get_ylabel()
              and ("E^2" in ax.get_ylabel()) == sed,
              "%s: y label %r, unit %s" % (what, ax.get_ylabel(), want))


def plotted_model(m, pars, sed):
    """What the model curve at the data is, in plotted units"""
    return m.values(pars, m.e) * factor(m.pr["mkind"], m.e, sed)


def bands(ax):
    out = []
    for c in ax.collections:
        for p in c.get_paths():
            v = np.asarray(p.vertices, float)
            if len(v) > 4 and type(c).__name__ in ("PolyCollection", "FillBetweenPolyCollection"):
                out.append(v)
    return out


def run(case, mon):
    import matplotlib.pyplot as plt

    if not F.distinct(case):
        return mon.mark_trivial()
    mon.cls("kind", case["kind"])
    mon.cls("SED", case["sed"])
    mon.cls("groups", len(set(F.D.rows(case["t"], case["data_sed"])[0]["group"].tolist())))
    try:
        KINDS[case["kind"]](case, mon)
    finally:
        plt.close("all")


def sampler(case):
    import naima

    m = Model(case)
    np.random.seed(case["rs"] % 2**31)
    s, _ = F.silent(naima.run_sampler, data_table=F.tables(case), p0=[1.0, 0.3], model=m, prior=None,
                    nwalkers=case["nw"], nburn=0, nrun=case["nrun"], guess=False, threads=1,
                    labels=case["labels"], data_sed=case["data_sed"])
    return s, m


def figure(case, kw):
    """Some figures are of the caller"""
    import matplotlib.pyplot as plt

    if case["rs"] // 11 % 3 == 0:
        kw["figure"] = plt.figure()
        kw["figure"].open_before = plt.get_fignums()
    return kw


def on_figure(mon, f, kw, what):
    if "figure" in kw:
        import matplotlib.pyplot as plt

        mon.check("figure", f is kw["figure"] and f.axes, "%s: not on the figure given" % what)
        mon.check("figure", plt.get_fignums() == f.open_before, "%s: figures %s are open instead of %s" % (
            what, plt.get_fignums(), f.open_before))


def add_kw(case, kw):
    figure(case, kw)
    if case["last"] is not None:
        kw["last_step"] = case["last"]
    if case["eu"]:
        kw["e_unit"] = u.Unit(case["eu"])
    return kw


def do_data(case, mon):
    import naima

    t = F.tables(case)
    # plotting a table on its own merges to the format of the first table
    if case["input"] == "sampler":
        s, m = sampler(case)
        r, kind, arg, ref = m.rows, m.kind, s, s.data
    else:
        (r, kind), arg = F.D.rows(case["t"], None), t
        ref = naima.utils.validate_data_table(t)
        if case["input"] == "data":
            arg = ref
    un, xs = eunit(case, ref)
    kw = {"e_unit": un} if case["eu"] else {}
    f = naima.plot_data(arg, sed=case["sed"], **kw)
    ax = f.axes[0]
    mon.cls("upper limits", int(r["ul"].any()) + int(r["ul"].all()))
    check_data(mon, ax, r, kind, case["sed"], xs, "plot_data", exact=not r["ul"].any())
    check_labels(mon, ax, un, kind, case["sed"], "plot_data")


def do_add(case, mon):
    """Data added to a figure keep its energy unit"""
    import naima

    t = case["t"][0]
    g = F.gen_problem(random.Random(case["rs"]), ntab=1, npt=4)["t"][0]
    g["kind"], g["unit"] = t["kind"], t["unit"]
    a, c = F.D.to_table(t, 1), F.D.to_table(g, 2)
    un, xs = eunit(case, naima.utils.validate_data_table(a))
    kw = {"e_unit": un} if case["eu"] else {}
    f = naima.plot_data(a, sed=case["sed"], **kw)
    f2 = naima.plot_data(c, sed=case["sed"], figure=f)
    ax = f.axes[0]
    mon.check("added-data", f2 is f and len(f.axes) == 1, "another figure or axis")
    for s, what in ((t, "first data"), (g, "added data")):
        r, kind = F.D.rows([s], None)
        check_data(mon, ax, r, kind, case["sed"], xs, what, exact=False)
    check_labels(mon, ax, un, kind, case["sed"], "two tables")


def samples_of(s, m, case, fn):
    """`fn` of the parameters of each recorded sample"""
    ch = np.asarray(s.get_chain())
    ch = ch[-1] if case["last"] else ch.reshape(-1, ch.shape[-1])
    return np.array([fn(p) for p in ch])


def best(s):
    lp, ch = np.asarray(s.get_log_prob()), np.asarray(s.get_chain())
    return [ch[i] for i in zip(*np.nonzero(lp == lp.max()))]


def check_model(mon, case, ax, s, x, fn, what, nsamp=None, confs=None, recalculated=False):
    """Curves of the best model, samples and bands on the axes"""
    cs = curves(ax, len(x))
    okx = [c for c in cs if np.allclose(c[0], x, rtol=1e-6, atol=0)]
    want = [fn(p) for p in best(s)]
    hit = [c for c in okx if any(np.allclose(c[1], w, rtol=1e-6, atol=0) for w in want)]
    mon.check("best-model", hit, "%s: no curve of the most probable model %s among %s" % (
        what, want[0][:3], [c[1][:3].tolist() for c in okx[:3]]))
    allm = samples_of(s, None, case, fn)
    if nsamp is not None:
        other = list(okx)
        mon.check("samples", len(other) >= nsamp + (1 if nsamp else 0),
                  "%s: %d curves for %d samples and the best model" % (what, len(other), nsamp))
        mon.check("samples", len(other) <= nsamp + 1, "%s: %d curves for %d samples" % (
            what, len(other), nsamp))
        for c in other:
            d = np.max(np.abs(allm / c[1] - 1), axis=1)
            isb = any(np.allclose(c[1], w, rtol=1e-6, atol=0) for w in want)
            mon.check("samples", d.min() < 1e-6 or isb, "%s: curve %s is not of a recorded sample" % (
                what, c[1][:3]))
        if nsamp >= 30 and len(np.unique(allm[:, 0])) > 10:
            mon.check("samples", len({tuple(c[1].tolist()) for c in other}) > 3,
                      "%s: all samples are the same" % what)
        ch = np.asarray(s.get_chain())
        if nsamp >= 30 and not case["last"]:
            # not all of them of one of the steps, or one of the walkers
            flat = ch.reshape(-1, ch.shape[-1])
            rows = [int(np.argmin(np.max(np.abs(allm / c[1] - 1), axis=1))) for c in other]
            used = {tuple(flat[i]) for i in rows}
            h, w = len(ch) // 2, ch.shape[1] // 2
            for which, groups in (("step", ch), ("walker", np.moveaxis(ch, 1, 0)), ("half", [
                    x.reshape(-1, ch.shape[-1]) for x in (ch[:h], ch[h:], ch[:, :w], ch[:, w:])])):
                for k, g in enumerate(groups):
                    g = {tuple(p) for p in g}
                    share = np.mean([tuple(p) in g for p in flat])
                    if share**nsamp < 1e-9 and not mon.check("samples", not used <= g,
                                                     "%s: all the samples are of %s %d" % (what, which, k)):
                        return
                    mon.cls("spread", share**nsamp < 1e-9)
    if confs is not None:
        from scipy import stats

        bs = bands(ax)
        mon.check("bands", len(bs) == len(confs), "%s: %d bands for %s" % (what, len(bs), confs))
        n = len(allm)
        env = []
        for v in bs:
            lo, hi = [], []
            for xi in x:
                y = v[np.abs(v[:, 0] / xi - 1) < 1e-9][:, 1]
                if len(y) == 0:
                    mon.violate("bands", "%s: no band at %g" % (what, xi))
                    return
                lo.append(y.min())
                hi.append(y.max())
            env.append((np.array(lo), np.array(hi)))
        env.sort(key=lambda b: -np.sum(np.log(b[1] / b[0])))
        for (lo, hi), conf in zip(env, sorted(confs, reverse=True)):
            for q, band in ((stats.norm.cdf(-conf), lo), (stats.norm.cdf(conf), hi)):
                for j in range(len(x)):
                    col = np.sort(allm[:, j])
                    # within one sample of the quantile, with either convention
                    tiny = 1e-7 * abs(band[j])
                    below = np.sum(col < band[j] - tiny)
                    upto = np.sum(col <= band[j] + tiny)
                    tol = 1.5 if not recalculated else None
                    if tol is None:
                        # at least a hundred other samples: within six standard deviations
                        slack = 0.25
                        ok = col[0] - 10 * tiny <= band[j] <= col[-1] + 10 * tiny
                        ok = ok and below / n - slack <= q <= upto / n + slack
                    else:
                        ok = below <= q * (n - 1) + tol and upto >= q * (n - 1) - tol
                    if not mon.check("bands", ok, "%s: the %s sigma band at %g is %g: %d of %d samples "
                                     "below, quantile %.4f" % (what, conf, x[j], band[j], below, n, q)):
                        return


def do_fit(case, mon):
    import naima

    s, m = sampler(case)
    un, xs = eunit(case, s.data)
    kw = add_kw(case, {"sed": case["sed"]})
    nsamp = confs = None
    if case["mode"] == "samples":
        nsamp = kw["n_samples"] = case["ns"]
    elif case["mode"] == "confs":
        confs = kw["confs"] = list(case["confs"])
    else:
        kw["n_samples"] = None
        kw["plotresiduals"] = case["res"] if case["res"] is not None else True
    if case["res"] is not None:
        kw["plotresiduals"] = case["res"]
    if case["info"]:
        kw["ML_info"] = True
    title = "Title %d" % case["idx"]
    kw["label"] = title
    f = naima.plot_fit(s, **kw)
    what = "plot_fit(%s)" % case["mode"]
    on_figure(mon, f, kw, what)
    mon.cls("plot_fit", case["mode"])
    ax = f.axes[0]
    mon.check("axis-label", kw.get("confs") is None or confs == case["confs"], "confs was changed")
    r = m.rows
    check_data(mon, ax, r, m.kind, case["sed"], xs, what, exact=not r["ul"].any(), autolim=True)
    only_data = case["mode"] == "ML" and kw["plotresiduals"] is False
    res = kw.get("plotresiduals", True)
    mon.check("residuals", len(f.axes) == (2 if res else 1), "%s: %d axes" % (what, len(f.axes)))
    check_labels(mon, ax, un, m.kind, case["sed"], what, xax=f.axes[-1])
    if only_data:
        return
    mon.check("axis-label", ax.get_title() == title, "title %r" % ax.get_title())

    def fn(p):
        return plotted_model(m, p, case["sed"])

    check_model(mon, case, ax, s, m.e * xs, fn, what, nsamp, confs)
    if res:
        ax2 = f.axes[1]
        ok = ~r["ul"]
        k = factor(m.kind, m.e, case["sed"])
        y, lo, hi = r["flux"] * k, r["flux_error_lo"] * k, r["flux_error_hi"] * k
        mk = marks(ax2)
        fits = []
        for p in best(s):
            d = (y - fn(p)) / ((lo + hi) / 2)
            w = [(x, z) for x, z in zip(m.e[ok] * xs, d[ok])]
            fits.append(has_row(mk, w, 1e-6, atol=np.array([0, 1e-6])))
        mon.check("residuals", any(not x for x in fits) and len(mk) == ok.sum(),
                  "%s: residuals %s not drawn; drawn %s" % (what, fits[0][:3], mk[:4].tolist()))
        seg = segments(ax2)
        if ok.any():
            w = [(q[0], q[1] - 1, q[0], q[1] + 1) for q in mk]
            mon.check("residuals", not has_row(seg, w, 1e-6, atol=np.array([0, 1e-6, 0, 1e-6])),
                      "%s: error bars of the residuals are not one" % what)
    if case["info"] and case["mode"] != "ML":
        txt = " ".join(t.get_text() for t in ax.texts)
        b = best(s)
        mon.check("best-model", any(all("%.3g" % v in txt for v in p) for p in b)
                  and "%.3g" % np.max(s.get_log_prob()) in txt, "information %r, best %s" % (txt, b[0]))
        mon.check("best-model", all(x in txt for x in s.labels), "labels %s in %r" % (s.labels, txt))


def do_range(case, mon):
    """Recomputed over an energy range"""
    import naima

    drift = case["rs"] // 7 % 4 if not case["last"] else 0
    if drift:
        case = dict(case, nrun=40, nw=12)
    s, m = sampler(case)
    if drift:
        # one half of the chain, or of the walkers, is somewhere else
        ch = s.backend.chain
        [ch[:20], ch[20:], ch[:, :6]][drift - 1][..., 0] *= 4
    mon.cls("drift", drift)
    un, xs = eunit(case, s.data)
    lo, hi, npt = m.e[0] / 10, m.e[-1] * 5, 12 + case["idx"]
    own = case["form"] == "xy" and case["rs"] % 2  # an output with energies of its own
    run_ = [lo * u.eV, hi * u.eV] if case["idx"] % 2 else u.Quantity([lo, hi], "eV").to("TeV")
    kw = add_kw(case, {"sed": case["sed"], "e_range": run_, "e_npoints": npt, "threads": 1})
    nsamp = confs = None
    if case["mode"] == "confs":
        confs = kw["confs"] = [1]
    else:
        nsamp = kw["n_samples"] = case["ns"]
    if case["form"] in ("samelen", "ndmix"):
        kw["modelidx"] = 0
    if own:
        kw["modelidx"] = 1
    np.random.seed(case["rs"] % 2**31)
    f = naima.plot_fit(s, **kw)
    x = m.grid() if own else np.geomspace(lo, hi, npt)

    def fn(p):
        return (m.xy(p) if own else m.values(p, x)) * factor(case["mkind"], x, case["sed"])

    mon.cls("range of", "own energies" if own else "spectrum")
    what = "plot_fit(e_range)"
    on_figure(mon, f, kw, what)
    check_model(mon, case, f.axes[0], s, x * xs, fn, what, nsamp, confs, recalculated=True)
    a, b = sorted(f.axes[0].get_xlim())
    if own:
        lo, hi = x[0], x[-1]
    mon.check("energy-range", a <= lo * xs * (1 + 1e-9) and b >= hi * xs * (1 - 1e-9),
              "limits of the axis %g-%g, range %g-%g" % (a, b, lo * xs, hi * xs))
    if not own:  # only the spectrum is plotted with the data
        check_data(mon, f.axes[0], m.rows, m.kind, case["sed"], xs, what, exact=not m.rows["ul"].any())


def do_own(case, mon):
    """Residuals of an output at energies of its own, which may not reach all of the data"""
    import naima

    case = dict(case, form="xy")
    s, m = sampler(case)
    un, xs = eunit(case, s.data)
    kw = add_kw(case, {"sed": case["sed"], "n_samples": case["ns"], "modelidx": 1})
    f = naima.plot_fit(s, plotdata=True, **kw)
    x = m.grid()

    def fn(p):
        return m.xy(p) * factor(case["mkind"], x, case["sed"])

    what = "plot_fit(modelidx=1)"
    check_model(mon, case, f.axes[0], s, x * xs, fn, what, case["ns"])
    check_data(mon, f.axes[0], m.rows, m.kind, case["sed"], xs, what, exact=not m.rows["ul"].any())
    if not mon.check("residuals", len(f.axes) == 2, "%s: %d axes" % (what, len(f.axes))):
        return
    r = m.rows
    within = (m.e > x[0]) & (m.e < x[-1])
    ok = ~r["ul"]
    mon.cls("own energies", "all data" if within.all() else "some of the data")
    k = factor(m.kind, m.e, case["sed"])
    y, err = r["flux"] * k, (r["flux_error_lo"] + r["flux_error_hi"]) / 2 * k
    mk = marks(f.axes[1])
    mk = mk[np.isfinite(mk).all(axis=1)]
    fits = []
    for p in best(s):
        # one and a half times the model at the data
        d = (y - 1.5 * plotted_model(m, p, case["sed"])) / err
        big = 1e-6 * np.max(np.abs(1.5 * plotted_model(m, p, case["sed"]) / err))
        w = [(a, z) for a, z in zip(m.e[ok & within] * xs, d[ok & within])]
        fits.append(has_row(mk, w, 1e-6, atol=np.array([0, big + 1e-6])))
    mon.check("residuals", any(not a for a in fits), "%s: residuals %s not drawn; drawn %s" % (
        what, fits[0][:3], mk[:4].tolist()))
    mon.check("residuals", len(mk) == np.sum(ok & within), "%s: %d residuals for %d points within %g-%g eV: %s" % (
        what, len(mk), np.sum(ok & within), x[0], x[-1], (m.e[ok] / x[0]).tolist()))


def do_blob(case, mon):
    import naima

    case = dict(case, form=["tuple", "scalars", "xy", "list"][case["idx"]])
    s, m = sampler(case)
    nb = {"tuple": 3, "scalars": 4, "xy": 3, "list": 3}[case["form"]]
    ch = np.asarray(s.get_chain())
    ch = ch[-1] if case["last"] else ch.reshape(-1, 2)
    tot = len(set(map(tuple, ch.tolist())))
    for i in range(1, nb):
        what = "plot_blob %s %d" % (case["form"], i)
        if case["form"] == "xy" and i == 1:
            kw = add_kw(case, {"sed": case["sed"], "n_samples": case["ns"]})
            f = naima.plot_blob(s, blobidx=i, label="x", **kw)
            on_figure(mon, f, kw, what)
            un, xs = eunit(case, s.data)
            x = m.grid()

            def fn(p):
                return m.xy(p) * factor(case["mkind"], x, case["sed"])

            check_model(mon, case, f.axes[0], s, x * xs, fn, what, case["ns"])
            # an output that is zero, or not positive, everywhere or from some energy on
            case2 = dict(case, void=["zero", "end", "negative"][case["rs"] % 3])
            s2, m2 = sampler(case2)
            mode = [{"n_samples": case["ns"]}, {"confs": case["confs"]}, {"n_samples": 0, "plotdata": False}][case["rs"] // 3 % 3]
            f = naima.plot_blob(s2, blobidx=i, label="x", **add_kw(case, dict(mode, sed=case["sed"])))
            mon.cls("void", "%s %s" % (case2["void"], sorted(mode)))
            want = [m2.xy(p) * factor(case["mkind"], x, case["sed"]) for p in best(s2)]
            mon.check("best-model", any(np.allclose(c[0], x * xs, rtol=1e-6, atol=0) and any(
                np.allclose(c[1], w, rtol=1e-6, atol=0) for w in want) for c in curves(f.axes[0], len(x))),
                "%s: no curve of an output that is %s" % (what, case2["void"]))
            continue
        if case["form"] == "tuple" and i == 1:
            continue
        fn = {("tuple", 2): lambda p: p[0], ("scalars", 1): lambda p: p[0] * 1e48,
              ("scalars", 2): lambda p: p[1], ("scalars", 3): None, ("xy", 2): lambda p: p[0],
              ("list", 1): lambda p: p[0] * 2, ("list", 2): lambda p: p[1]}[case["form"], i]
        unit = {("tuple", 2): "erg", ("scalars", 1): "erg", ("xy", 2): "erg", ("list", 2): "G"}.get(
            (case["form"], i))
        if fn is None or tot < 3:
            continue
        kw = figure(case, {} if case["last"] is None else {"last_step": case["last"]})
        f = naima.plot_blob(s, blobidx=i, label="lab", **kw)
        on_figure(mon, f, kw, what)
        d = np.array([fn(p) for p in ch])
        check_distribution(mon, f.axes[0], d, what, "scalar-output")
        mon.check("scalar-output", "lab" in f.axes[0].get_xlabel() and
                  (unit is None or unit in f.axes[0].get_xlabel()), "%s: label %r" % (
                      what, f.axes[0].get_xlabel()))
        txt = " ".join(t.get_text() for t in f.texts)
        check_float(mon, txt, "median", np.median(d), what)
        check_float(mon, txt, "std", np.std(d), what)


def check_float(mon, txt, name, v, what):
    """`name: $...$` in the text is v to three digits"""
    import re

    got = re.search(r"%s: \$(-?[0-9.]+)(?:\\times 10\^\{(-?[0-9]+)\})?\$" % name, txt)
    if not mon.check("quantiles", got, "%s: no %s in %r" % (what, name, txt)):
        return
    x = float(got.group(1)) * 10.0 ** int(got.group(2) or 0)
    mon.close("quantiles", x, v, rtol=6e-3, msg="%s: %s in the text" % (what, name))


def check_distribution(mon, ax, d, what, rule):
    """Histogram, median line, and band of the percentiles of `d`"""
    area, span = 0.0, None
    q = np.percentile(d, [16, 50, 84])
    tol = 1e-6 * max(np.abs(q))
    vl = [np.asarray(ln.get_xdata(), float) for ln in ax.lines if len(ln.get_xdata()) == 2]
    mon.check("quantiles", any(np.all(np.abs(v - q[1]) <= tol) for v in vl),
              "%s: no line at the median %g: %s" % (what, q[1], vl))
    boxes = [p.get_extents() for p in [pt.get_path().transformed(pt.get_patch_transform())
                                       for pt in ax.patches]]
    ext = [(b.x0, b.x1) for b in boxes]
    mon.check("quantiles", any(abs(a - q[0]) <= tol and abs(b - q[2]) <= tol for a, b in ext),
              "%s: no band from %g to %g: %s" % (what, q[0], q[2], ext))
    mon.check(rule, any(abs(a - d.min()) <= tol and abs(b - d.max()) <= tol for a, b in ext),
              "%s: no histogram from %g to %g: %s" % (what, d.min(), d.max(), ext))
    for pt in ax.patches:
        v = np.asarray(pt.get_path().vertices)
        if len(v) > 10:
            x, y = v[:, 0], v[:, 1]
            area = abs(0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1]))
    mon.close(rule, area, 1.0, rtol=1e-6, msg=what + ": area of the histogram")


def do_chain(case, mon):
    import naima

    s, m = sampler(case)
    ch = np.asarray(s.get_chain())
    if len(np.unique(ch[-1, :, 0])) < 3 or len(ch) < 2:
        return mon.mark_trivial()
    p = case["idx"] % 2
    f = naima.plot_chain(s, p, **({} if case["last"] is None else {"last_step": case["last"]}))
    d = ch[-1, :, p] if case["last"] else ch[:, :, p].ravel()
    tr = [ln for a in f.axes for ln in a.lines if len(ln.get_ydata()) == len(ch)]
    have = {tuple(np.asarray(ln.get_ydata(), float).tolist()) for ln in tr}
    want = {tuple(ch[:, w, p].tolist()) for w in range(ch.shape[1])}
    mon.check("traces", want <= have, "traces of %d of %d walkers" % (len(want & have), len(want)),
              n=len(want))
    mon.check("traces", all(np.array_equal(ln.get_xdata(), np.arange(len(ch))) for ln in tr
                            if tuple(np.asarray(ln.get_ydata(), float).tolist()) in want),
              "steps of the traces")
    ax = [a for a in f.axes if a.patches]
    if mon.check("quantiles", len(ax) == 1, "histograms: %d" % len(ax)):
        check_distribution(mon, ax[0], d, "plot_chain", "quantiles")
    txt = " ".join(t.get_text() for t in f.texts)
    check_float(mon, txt, "median", np.median(d), "plot_chain")
    check_float(mon, txt, "std", np.std(d), "plot_chain")
    mon.check("traces", "Walkers: %d" % case["nw"] in txt and "chain: %d" % len(ch) in txt
              and s.labels[p] in txt, "text %r" % txt)
    mon.check("traces", "%.3f" % np.mean(s.acceptance_fraction) in txt, "acceptance in %r" % txt)


def do_corner(case, mon):
    import naima

    s, m = sampler(case)
    ch = np.asarray(s.get_chain()).reshape(-1, 2)
    if len(np.unique(ch[:, 0])) < 4:
        return mon.mark_trivial()
    f = naima.plot_corner(s)
    mon.check("corner", len(f.axes) == 4, "%d panels" % len(f.axes))
    ok = False
    for p in best(s):
        o = []
        for i, ax in enumerate((f.axes[0], f.axes[3])):
            xs = [ln.get_xdata()[0] for ln in ax.lines if len(ln.get_xdata()) >= 1]
            q = np.percentile(ch[:, i], [16, 50, 84])
            o.append(any(abs(x - p[i]) <= 1e-9 * abs(p[i]) for x in xs))
            o += [any(abs(x - y) <= 1e-6 * abs(y) for x in xs) for y in q]
        ok = ok or all(o)
    mon.check("corner", ok, "best sample or percentiles are not in the corner plot")
    lab = [f.axes[2].get_xlabel(), f.axes[3].get_xlabel(), f.axes[2].get_ylabel()]
    mon.check("corner", lab == [s.labels[0], s.labels[1], s.labels[1]], "labels %s" % lab)
    g = naima.plot_corner(s, show_ML=False)
    xs = [ln.get_xdata()[0] for ln in g.axes[0].lines]
    mon.check("corner", len(xs) == len([ln for ln in f.axes[0].lines]) - 1, "best sample not hidden")


class Watch:
    """Looks at each figure at the moment when it is written to a file"""

    def __init__(self, case, mon, s, m, bl):
        self.case, self.mon, self.s, self.m = case, mon, s, m
        nb = {"scalars": 4, "xy": 3, "bare": 2, "list": 3}[case["form"]]
        self.labels = (bl + ["Model output %d" % i for i in range(len(bl), nb)])[:nb]
        self.seen, self.errors = [], []

    def __enter__(self):
        from matplotlib.figure import Figure

        self.orig = orig = Figure.savefig

        def savefig(fig, *a, **k):
            try:
                self.look(fig)
            except Exception as e:
                self.errors.append(e)
            return orig(fig, *a, **k)

        Figure.savefig = savefig

    def __exit__(self, *a):
        from matplotlib.figure import Figure

        Figure.savefig = self.orig

    def look(self, f):
        case, mon, s, m = self.case, self.mon, self.s, self.m
        ch = np.asarray(s.get_chain())
        ch = ch[-1] if case["last"] else ch.reshape(-1, 2)
        txt = " ".join(t.get_text() for t in f.texts)
        traces = [a for a in f.axes if a.get_title() == "Walker traces"]
        if traces:
            p = list(s.labels).index(traces[0].get_ylabel())
            self.seen.append("chain%d" % p)
            ax = [a for a in f.axes if a.patches]
            check_distribution(mon, ax[0], ch[:, p], "saved chain plot", "quantiles")
            check_float(mon, txt, "median", np.median(ch[:, p]), "saved chain plot")
            return
        title = f.axes[0].get_title()
        if title in self.labels:
            i = self.labels.index(title)
            self.seen.append("model%d" % i)
            un, xs = eunit(dict(case, eu=None), s.data)
            x = m.grid() if (case["form"], i) == ("xy", 1) else m.e

            def fn(p):
                if x is m.e:
                    return plotted_model(m, p, case["sed"])
                return m.xy(p) * factor(case["mkind"], x, case["sed"])

            check_model(mon, case, f.axes[0], s, x * xs, fn, "saved model plot", 100)
            return
        for i, lab in enumerate(self.labels):
            if lab in f.axes[0].get_xlabel():
                self.seen.append("model%d" % i)
                fn = {("scalars", 1): lambda p: p[0] * 1e48, ("scalars", 2): lambda p: p[1],
                      ("xy", 2): lambda p: p[0], ("list", 1): lambda p: p[0] * 2,
                      ("list", 2): lambda p: p[1]}.get((case["form"], i))
                if fn:
                    check_distribution(mon, f.axes[0], np.array([fn(p) for p in ch]), "saved output plot",
                                       "scalar-output")
                return
        self.seen.append("corner" if len(f.axes) == 4 else "?")

    def done(self):
        for e in self.errors:
            raise e
        need = ["chain0", "chain1", "corner", "model0"]
        need += {"scalars": ["model1", "model2"], "xy": ["model1", "model2"], "bare": [],
                 "list": ["model1", "model2"]}[self.case["form"]]
        self.mon.check("saved-figures", set(need) <= set(self.seen) and len(set(self.seen)) == len(self.seen),
                       "figures saved: %s, expected %s" % (self.seen, need))


def do_diag(case, mon):
    import naima

    case = dict(case, form=["scalars", "xy", "bare", "list"][case["idx"]], nrun=12, nw=12)
    if case["rs"] % 3 == 0:
        # units and ratios in the names of the parameters
        case["labels"] = [["norm", "B/G"], ["log10(W/erg)", "slope"], ["norm", "E_c [TeV]"],
                          ["norm/(1/eV)", "$\\alpha$ (index)"]][case["rs"] // 3 % 4]
    s, m = sampler(case)
    tmp = tempfile.mkdtemp(prefix="vmon24")
    try:
        name = os.path.join(tmp, "d")
        bl = ["Spectrum", "Other"][: 1 + case["idx"] % 2]
        w = Watch(case, mon, s, m, bl)
        with w:
            naima.save_diagnostic_plots(name, s, sed=case["sed"], pdf=case["pdf"], blob_labels=bl,
                                        dpi=40, **({} if case["last"] is None else {"last_step": case["last"]}))
        w.done()
        have = set(os.listdir(tmp))
        if case["pdf"]:
            mon.check("files", have == {"d_plots.pdf"}, "files %s" % have)
            with open(name + "_plots.pdf", "rb") as fh:
                raw = fh.read()
            mon.check("files", raw.startswith(b"%PDF") and b"%%EOF" in raw[-64:], "not a PDF file")
            npages = raw.count(b"/Type /Page\n") + raw.count(b"/Type /Page ")
            if npages:
                mon.check("files", npages >= 4, "%d pages" % npages)
        else:
            lab = {"d_corner.png", "d_model0.png"}
            for x in s.labels:
                if x.startswith("log"):
                    x = x.split("(")[1].rstrip(")")
                elif "log10(" in x:
                    x = x.split("(")[-1].split(")")[0]
                if not set(x) & set("/$("):
                    lab.add("d_chain_%s.png" % x)
            nch = sum(x.startswith("d_chain_") for x in have)
            mon.check("files", nch == len(s.labels), "%d figures of chains for %s: %s" % (nch, s.labels, sorted(have)))
            lab |= {"scalars": {"d_model1.png", "d_model2.png"}, "xy": {"d_model1.png", "d_model2.png"},
                    "bare": set(), "list": {"d_model1.png", "d_model2.png"}}[case["form"]]
            mon.check("files", lab <= have, "files %s, expected %s" % (sorted(have), sorted(lab)))
            for x in have:
                with open(os.path.join(tmp, x), "rb") as fh:
                    mon.check("files", fh.read(8) == b"\x89PNG\r\n\x1a\n", "%s is not a PNG file" % x)
        import matplotlib.pyplot as plt

        mon.check("files", not plt.get_fignums(), "figures are left open: %s" % plt.get_fignums())
    finally:
        shutil.rmtree(tmp)


KINDS = {"data": do_data, "fit": do_fit, "range": do_range, "blob": do_blob, "own": do_own, "chain": do_chain,
         "corner": do_corner, "add": do_add, "diag": do_diag}
