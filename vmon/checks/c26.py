"""C26: the interactive model fitter."""
import gc
import re

import numpy as np
from astropy import units as u

from .. import fit as F
from ..core import val

RULE = """Random sessions of the interactive fitter, with and without data, over an
energy range or the energies of the data, as SED or differential spectrum, started
directly or from the sampler. Mouse events are sent to the canvas: sliders are moved,
automatic updates toggled, update, fit and close are clicked, in random order, while the
fitter shows the window or, as in interactive mode, after it has returned. A monitor
in the model records each evaluation; a shadow state follows the parameters. Oracles
after each event: the curve is the model at the parameters, the likelihood text is the
reference likelihood, sliders and parameters agree, a fit does not lower the
likelihood, the flag of a finished fit is lost with any change; at the end the sampler
starts from the last parameters shown. Non-trivial: at least one event."""
REQUIRED = ["curve", "likelihood", "parameters", "fit", "fit-flag", "sampler-start", "no-update",
            "arguments", "closed", "data-shown"]
CASE_LIMIT = 120
LABELS = [None, ["norm", "index"], ["log10(norm)", "alpha"], ["amplitude", "log(b)"], ["norm"],
          ["par", "alpha_1"]]


def gen(rng, tier):
    n = 180 if tier == "quick" else 4000
    out = []
    for i in range(n):
        p = F.gen_problem(rng, npt=rng.choice([2, 4, 8]))
        lab = rng.choice(LABELS)
        p["data_sed"] = None
        p.update(labels=lab, how=rng.choice(["direct", "direct", "sampler"]), sed=rng.choice([True, False]),
                 nodata=rng.random() < 0.15, range=rng.choice([None, "eV", "TeV"]),
                 # (also as many as there are data)
                 npts=rng.choice([None, 7, 31, sum(len(t["e"]) for t in p["t"])]),
                 auto=rng.choice([True, True, False]), p0=[round(rng.uniform(0.3, 2.5), 3),
                                                         round(rng.uniform(-0.6, 0.6), 3) or 0.1],
                 rev=rng.random() < 0.3,
                 script=[[rng.choice(["slide", "slide", "slide", "auto", "update", "fit"]),
                          rng.randrange(2), round(rng.uniform(0.02, 0.98), 4)]
                         for _ in range(rng.randint(1, 7))],
                 close=rng.random() < 0.5,
                 # an interactive backend: show returns at once
                 blocking=rng.random() < 0.7)
        out.append(p)
    return out


class Model(F.Model):
    def __init__(self, pr):
        super().__init__(pr)
        self.kind_for = []

    def values(self, pars, e):
        pr = self.pr
        p0 = pars[0]
        if pr["labels"] and pr["labels"][0].startswith("log10"):
            p0 = 10.0 ** pars[0]
        return super().values([p0, pars[1]], e)


class Session:
    def __init__(self, case, mon, m, sed, hasdata):
        self.case, self.mon, self.m, self.sed, self.hasdata = case, mon, m, sed, hasdata
        self.auto = case["auto"] if case["how"] == "direct" else True
        self.shown = list(map(float, case["p0"]))
        self.slid = list(self.shown)
        self.flag = False
        self.events = 0
        self.fitter = None

    # -- driving
    def mouse(self, name, ax, fx, fy=0.5):
        from matplotlib.backend_bases import MouseEvent

        x, y = ax.transAxes.transform((fx, fy))
        cv = self.fig.canvas
        cv.callbacks.process(name, MouseEvent(name, cv, x, y, 1))
        return ax.transData.inverted().transform((x, y))[0]

    def click(self, ax, fx=0.5, fy=0.5):
        self.mouse("button_press_event", ax, fx, fy)
        self.mouse("button_release_event", ax, fx, fy)

    def button(self, text):
        for ax in self.fig.axes:
            for t in ax.texts:
                if t.get_text() == text:
                    return ax, t
        return None

    def run(self, *a, **k):
        """Stands for matplotlib.pyplot.show: the session of the user"""
        import matplotlib.pyplot as plt

        mon, m = self.mon, self.m
        self.fig = plt.gcf()
        self.ax = self.fig.axes[0]
        lab = list(self.case["labels"] or [])
        if self.case["how"] == "direct" or lab:
            for x in lab:
                mon.check("parameters", self.button(x), "no slider with label %s" % x)
        # sliders: axes with a label and a value
        self.sl = [a for a in self.fig.axes[1:] if len(a.texts) == 2][:2]
        if not mon.check("parameters", len(self.sl) == 2, "%d sliders" % len(self.sl)):
            return
        e = m.last_e
        self.e = e
        self.observe("start")
        if self.hasdata:
            self.data_shown()
        for act, i, fx in self.case["script"]:
            self.events += 1
            n = len(m.calls)
            mon.cls("event", act)
            if act == "slide":
                ax = self.sl[i]
                self.mouse("button_press_event", ax, 0.5 * fx + 0.2)
                self.mouse("motion_notify_event", ax, fx * 0.9)
                x = self.mouse("motion_notify_event", ax, fx)
                self.mouse("button_release_event", ax, fx)
                self.slid[i] = float(x)
                if self.auto:
                    self.shown, self.flag = list(self.slid), False
                else:
                    mon.check("no-update", len(m.calls) == n, "model evaluated without automatic update")
            elif act == "auto":
                found = self.button("Auto update")
                if not mon.check("parameters", found, "no auto update button"):
                    return
                ax, t = found
                bb = t.get_window_extent(self.fig.canvas.get_renderer())
                x, y = ax.transAxes.inverted().transform(((bb.x0 + bb.x1) / 2, (bb.y0 + bb.y1) / 2))
                self.click(ax, x, y)
                self.auto = not self.auto
            elif act == "update":
                self.click(self.button("Update model")[0])
                self.shown, self.flag = list(self.slid), False
            elif act == "fit":
                b = self.button("Do Nelder-Mead fit")
                if not self.hasdata:
                    mon.check("fit", b is None, "fit without data")
                    continue
                before = list(self.slid)
                self.click(b[0])
                got = m.calls_pars[n]
                mon.close("fit", [float(x) for x in got], before, rtol=1e-9, atol=1e-12,
                          msg="start of the fit: the sliders")
                self.fit(before)
            self.observe(act)

    def end(self):
        import matplotlib.pyplot as plt

        if self.case["close"]:
            self.click(self.button("Close window")[0])
            self.mon.check("closed", not plt.fignum_exists(self.fig.number), "window is still open")

    # -- oracles
    def fit(self, before):
        m = self.m
        f = self.fitter
        if f is not None:
            got = [float(x) for x in f.pars]
            self.flag = bool(f.P0_IS_ML)
        else:
            got = [float(x) for x in m.calls_pars[-1]]
            self.flag = None
        a, b = F.ref_lnlike(m, before), F.ref_lnlike(m, got)
        self.mon.check("fit", b >= a - 1e-6 * abs(a) - 1e-9, "likelihood %g after the fit, %g before" % (b, a))
        ev = {tuple(map(float, x)) for x in m.calls_pars}
        self.mon.check("fit", tuple(got) in ev, "result of the fit was never evaluated")
        self.shown, self.slid = got, list(got)

    def data_shown(self):
        from .c24 import factor, has_row, marks

        r = self.m.rows
        k = factor(self.m.kind, r["energy"], self.sed)
        ok = ~r["ul"]
        xs = 1 / self.xun.to("eV") if hasattr(self, "xun") else None
        if xs is None:
            return
        w = list(zip(r["energy"][ok] * xs, (r["flux"] * k)[ok]))
        miss = has_row(marks(self.ax), w)
        self.mon.check("data-shown", not miss, "points %s not drawn" % miss[:3])

    def observe(self, what):
        from .c24 import factor

        m, mon = self.m, self.mon
        mm = m.values(self.shown, self.e) * factor(self.case["mkind"], self.e, self.sed)
        hit = [ln for ln in self.ax.lines if len(ln.get_xdata()) == len(self.e)
               and np.allclose(np.asarray(ln.get_ydata(), float), mm, rtol=1e-5, atol=0)]
        mon.check("curve", hit, "after %s: no curve of the model at %s; curves: %s" % (
            what, self.shown, [np.asarray(ln.get_ydata(), float)[:3].tolist() for ln in self.ax.lines
                               if len(ln.get_xdata()) == len(self.e)][:3]))
        if hit:
            x = np.asarray(hit[0].get_xdata(), float)
            mon.check("curve", np.allclose(x * self.xun.to("eV"), self.e, rtol=1e-6, atol=0),
                      "energies of the curve")
        txt = [re.search(r"= ?(-?[0-9.]+|-inf|nan)", t.get_text()) for t in self.ax.texts
               if "ln" in t.get_text()]
        txt = [t for t in txt if t]
        if not self.hasdata:
            mon.check("likelihood", not txt, "likelihood without data")
        elif mon.check("likelihood", len(txt) == 1, "no likelihood is shown") and not F.marginal(
                m, self.shown):
            w = F.ref_lnlike(m, self.shown)
            mon.close("likelihood", float(txt[0].group(1)), w, rtol=1e-6, atol=0.06,
                      msg="likelihood shown after " + what)
        for i, ax in enumerate(self.sl):
            v = [t.get_text() for t in ax.texts]
            # the value is drawn with four digits
            num = None
            for t in v[::-1]:
                try:
                    num = float(t.replace("\N{MINUS SIGN}", "-"))
                    break
                except ValueError:
                    continue
            if mon.check("parameters", num is not None, "slider texts %s" % v):
                mon.close("parameters", num, self.slid[i], rtol=6e-4, atol=1e-12,
                          msg="slider %d after %s" % (i, what))
        if self.fitter is not None:
            mon.close("parameters", [float(x) for x in self.fitter.pars], self.shown, rtol=1e-9,
                      atol=1e-12, msg="parameters after " + what)
            mon.check("fit-flag", bool(self.fitter.P0_IS_ML) == bool(self.flag),
                      "flag of a finished fit is %s after %s" % (self.fitter.P0_IS_ML, what))


def run(case, mon):
    import matplotlib.pyplot as plt
    import naima.model_fitter as MF

    case = dict(case)
    if case["how"] == "sampler":
        # the sampler shows SEDs at the energies of the data
        case.update(nodata=False, range=None, npts=None, sed=True)
    if not F.distinct(case):
        return mon.mark_trivial()
    if case["labels"] and case["labels"][0].startswith("log10"):
        case["p0"] = [round(float(np.log10(case["p0"][0])), 3) or 0.1, case["p0"][1]]
    hasdata = not case["nodata"]
    # the fitter reads the data in the form that it plots
    case["data_sed"] = case["sed"] if case["how"] == "direct" else None
    m = Model(case)
    m.calls_pars = []
    base = m.__call__

    def model(pars, data):
        m.calls_pars.append(list(pars))
        m.last_e = np.asarray(data["energy"].to("eV").value)
        if m.calls_e is None:
            m.calls_e = data["energy"].unit
        return base(pars, data)

    m.calls_e = None
    mon.cls("start", case["how"])
    mon.cls("data", hasdata)
    s = Session(case, mon, m, case["sed"], hasdata)
    p0 = list(case["p0"])
    labels = None if case["labels"] is None else list(case["labels"])
    t = F.tables(case) if hasdata else None
    show = plt.show
    old = plt.rcParams["interactive"]

    def fake(*a, **k):
        # the energies that the figure shows
        if case["range"]:
            x = np.geomspace(m.e[0] / 3, m.e[-1] * 2, case["npts"] or 100)
        elif hasdata:
            x = m.e
        else:
            x = np.geomspace(1e8, 1e14, case["npts"] or 100)
        lab = plt.gcf().axes[0].get_xlabel()
        s.xun = u.Unit(lab.split("[")[-1].split("]")[0].replace("$", "").replace(
            "\\mathrm{", "").rstrip("}"))
        m.last_e = x
        if case["how"] == "sampler" or case["blocking"]:
            s.run()
            s.end()

    class Spy(MF.InteractiveModelFitter):
        def __init__(self, *a, **k):
            s.fitter = self
            super().__init__(*a, **k)

    plt.show = fake
    try:
        if case["how"] == "direct":
            kw = {}
            if case["range"]:
                er = u.Quantity([m.e[0] / 3, m.e[-1] * 2], "eV")
                kw["e_range"] = [x for x in er] if case["range"] == "eV" else er.to("TeV")
            if case["npts"]:
                kw["e_npoints"] = case["npts"]
            f = Spy(model, p0, data=t, labels=labels, sed=case["sed"], auto_update=case["auto"], **kw)
            mon.cls("show returns at once", not case["blocking"])
            if not case["blocking"]:
                gc.collect()
                s.run()
                s.end()
            mon.close("parameters", [float(x) for x in f.pars], s.shown, rtol=1e-9, atol=1e-12,
                      msg="final parameters")
        else:
            import naima

            np.random.seed(case["rs"] % 2**31)
            smp, st = F.silent(naima.get_sampler, data_table=t, p0=p0, model=model, prior=None,
                               nwalkers=20, nburn=0, guess=False, threads=1, labels=labels,
                               interactive=True, prefit=case["rev"])
            got = np.array(smp.run_info["p0"])
            r = np.asarray(st.coords) / got - 1
            mon.cls("prefit", case["rev"])
            if case["rev"]:
                a, b = F.ref_lnlike(m, s.shown), F.ref_lnlike(m, got)
                mon.check("sampler-start", b >= a - 1e-6 * abs(a) - 1e-9,
                          "pre-fit from the interactive parameters: %g after %g" % (b, a))
            else:
                mon.close("sampler-start", got, s.shown, rtol=1e-9, atol=1e-12,
                          msg="start of the sampler")
            if not case["rev"] and s.flag is False:
                mon.check("sampler-start", np.abs(r).max() > 0.04, "narrow start without a fit")
            mon.check("sampler-start", np.abs(r).max() < 0.8, "walkers far from the start")
        mon.check("arguments", p0 == case["p0"] and labels == case["labels"], "arguments were changed")
        mon.check("arguments", plt.rcParams["interactive"] == old, "interactive mode was changed")
        mon.sample(how=case["how"], events=s.events, evaluations=len(m.calls_pars))
    finally:
        plt.show = show
        plt.close("all")
    val(1.0)
