"""C21: the starting point of a run: normalisation guess and pre-fit."""
import numpy as np
from astropy import units as u

from .. import fit as F

RULE = """Random data and models with a normalisation parameter in any position,
linear or logarithmic, with labels of every documented form (also none or several
matching), starting far from the data, with and without guess, pre-fit and priors
that allow or forbid the optimum. A monitor in the model counts evaluations.
Oracles: after the guess the model has the integrated energy flux of the data and
the other parameters are those given; without exactly one label, and
for a single point or a model of zero flux, nothing changes; the
pre-fit never lowers the likelihood, gives the best of the points that it evaluates, and reaches the optimum that an independent
minimiser finds nearby; it does not depend on the prior unless the optimum is
forbidden, and then the start is kept; the walkers start around the reported
point, closely after a pre-fit. Non-trivial: every case."""
REQUIRED = ["guess-integral", "others-kept", "no-guess", "prefit-better", "prefit-best", "prefit-optimum",
            "prefit-forbidden", "prior-free", "ball", "arguments"]
CASE_LIMIT = 120

ONE = ["norm", "Norm", "normalization", "amplitude", "Amplitude", "We", "wp", "ampl"]
LOGS = [("log(%s)", "e"), ("log10(%s)", "10"), ("Log10(%s)", "10"), ("LOG(%s)", "e")]
OTHER = ["index", "alpha", "log10(cutoff)", "B", "log(b)", "my norm"]


def gen(rng, tier):
    n = 260 if tier == "quick" else 8000
    out = []
    for i in range(n):
        kind = ["guess", "guess", "nolabel", "prefit", "forbidden"][i % 5] if i % 13 else "noguess"
        one = kind == "noguess" and rng.random() < 0.5
        p = F.gen_problem(rng, ntab=1 if one else None, npt=1 if one else rng.choice([2, 4, 8]), uls=None if kind == "guess" else 0)
        log = rng.choice([None, None, *LOGS])
        lab = rng.choice(ONE)
        if log:
            lab = log[0] % lab
        pos = rng.randrange(2)
        labels = [rng.choice(OTHER)]
        labels.insert(pos, lab)
        if kind == "nolabel":
            labels = rng.choice([["a", "index"], ["norm", "amplitude"], ["We", "log10(norm)"],
                                 ["x", "gamma"]])
        elif rng.random() < 0.1 and not log:
            labels, pos = None, 0
        elif rng.random() < 0.1 and pos == 0:
            labels = labels[:1]
        p.update(kind=kind, labels=labels, log=log[1] if log else None, pos=pos,
                 start=[float("%.4g" % 10 ** rng.choice([rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-20, 20)]) if kind != "prefit" else
                              "%.4g" % 10 ** rng.uniform(-0.5, 0.5)),
                        round(rng.uniform(0.1, 0.6), 3)],
                 nw=rng.choice([6, 30]), zero=kind == "noguess" and not one, guess=rng.random() < 0.8)
        out.append(p)
    return out


class Model:
    """The model of the problem with its parameters in another order and scale"""

    def __init__(self, case):
        self.m, self.case, self.n = F.Model(case), case, 0
        self.calls = []

    def natural(self, pars):
        c = self.case
        a, s = float(pars[c["pos"]]), float(pars[1 - c["pos"]])
        if c["log"]:
            a = np.exp(a) if c["log"] == "e" else 10.0**a
        return np.array([a, s])

    def __call__(self, pars, data):
        self.n += 1
        self.calls.append(np.array(pars, float))
        if self.case["zero"]:
            pars = start(self.case)
            pars[self.case["pos"]] = -np.inf if self.case["log"] else 0.0
        return self.m(self.natural(pars), data)


def start(case):
    a, s = case["start"]
    if case["log"]:
        a = float(np.log(a)) if case["log"] == "e" else float(np.log10(a))
    p = [s]
    p.insert(case["pos"], a)
    return p


class Forbid:
    """Prior that only allows normalisations far from `a` by a factor of two"""

    def __init__(self, m, a):
        self.m, self.a = m, a

    def __call__(self, pars):
        a = self.m.natural(pars)[0]
        return -np.inf if 0.5 < a / self.a < 2 else 0.0


class Gauss:
    def __call__(self, pars):
        import naima

        return naima.normal_prior(pars[0], 3.0, 0.01) + naima.normal_prior(pars[1], -3.0, 0.01)


def energy_flux(x, v, diff):
    """Trapezoidal integral of E dN/dE of the points"""
    y = v if diff else v / x**2
    o = np.argsort(x, kind="stable")
    x, y = x[o], (y * x)[o]
    return np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2)


def run(case, mon):
    import naima

    if not F.distinct(case):
        return mon.mark_trivial()
    m = Model(case)
    p0 = start(case)
    arg, labels = list(p0), None if case["labels"] is None else list(case["labels"])
    kind = case["kind"]
    mon.cls("kind", kind)
    mon.cls("label", case["labels"] and case["labels"][min(case["pos"], len(case["labels"]) - 1)])
    seed = case["rs"] % 2**31

    def sampler(model, guess, prefit, prior=None, p=arg, nw=case["nw"]):
        np.random.seed(seed)
        s, st = F.silent(naima.get_sampler, data_table=F.tables(case), p0=p, model=model, prior=prior,
                         nwalkers=nw, nburn=0, guess=guess, prefit=prefit, threads=1,
                         labels=labels, data_sed=case["data_sed"])
        mon.check("arguments", arg == p0 and labels == case["labels"], "arguments were changed")
        return s, np.array(s.run_info["p0"], float), np.asarray(st.coords)

    def ball(st, c, close):
        r = st / c - 1
        mon.check("ball", np.all(np.abs(r) < (0.04 if close else 0.8)),
                  "walkers at %s around %s" % (np.abs(r).max(), c))
        if len(st) == 30:
            sd = r.std(axis=0)
            lo, hi = (0.0015, 0.01) if close else (0.03, 0.2)
            mon.check("ball", np.all((sd > lo) & (sd < hi)), "relative spread %s (%s)" % (sd, close))

    e, f = m.m.e, m.m.flux
    dd, dm = m.m.kind.startswith("diff"), case["mkind"].startswith("diff")
    data_ef = energy_flux(e, f, dd)

    if kind == "noguess":
        # no finite normalisation has the flux of the data
        s, got, st = sampler(m, True, False)
        mon.close("no-guess", got, p0, rtol=0, msg="single point or model of zero")
        ball(st, got, False)
        return
    if kind in ("guess", "nolabel"):
        s, got, st = sampler(m, case["guess"], False)
        k = case["pos"]
        if kind == "nolabel" or not case["guess"] or data_ef <= 0:
            mon.close("no-guess", got, p0, rtol=0, msg="labels %s" % (labels,))
        else:
            nat = m.natural(got)
            if nat[0] > 0 and np.isfinite(nat[0]):
                mod = energy_flux(e, m.m.values(nat, e), dm)
                mon.close("guess-integral", mod, data_ef, rtol=1e-6,
                          msg="energy flux of the model after the guess; labels %s" % (labels,))
            else:
                mon.violate("guess-integral", "normalisation %r" % nat[0])
            mon.check("others-kept", got[1 - k] == p0[1 - k], "other parameter changed: %s from %s"
                      % (got, p0))
        ball(st, got, False)
        mon.check("arguments", bool(s.run_info["guess"]) == case["guess"], "guess of run_info")
        return

    # pre-fits, from a start at or off the normalisation of the data
    m1 = Model(case)
    s, c0, _ = sampler(m1, case["guess"], False)
    m1.calls = []
    s, got, st = sampler(m1, case["guess"], True)
    like0, like1 = (F.ref_lnlike(m.m, m.natural(x)) for x in (c0, got))
    mon.check("prefit-better", like1 >= like0 - 1e-6 * abs(like0) - 1e-9,
              "likelihood after the pre-fit %g, before %g" % (like1, like0))
    mon.check("prefit-better", m1.n < 600, "%d evaluations" % m1.n)
    # the best of all that the fit has evaluated (the first call is the check of units)
    tried = [F.ref_lnlike(m.m, m.natural(x)) for x in m1.calls[1:]]
    top = max([x for x in tried if np.isfinite(x)], default=-np.inf)
    mon.check("prefit-best", like1 >= top - 1e-6 * abs(top) - 1e-9,
              "likelihood after the pre-fit %g, one of %g was evaluated" % (like1, top))
    from scipy.optimize import minimize

    def nll(x):
        return -F.ref_lnlike(m.m, m.natural(x))

    done = bool(np.all(np.abs(st / got - 1) < 0.04))
    best = minimize(nll, got, method="Nelder-Mead",
                    options=dict(xatol=1e-6, fatol=1e-6, maxiter=3000, maxfev=3000))
    near = case["guess"] and np.all(np.abs(c0) > 0.05) and np.all(np.abs(best.x / got - 1) < 0.5)
    if done and near:
        # the pre-fit claims to be at the optimum
        mon.cls("pre-fit converged", True)
        gain = like1 + best.fun
        mon.check("prefit-optimum", -gain < 6 + 0.5 * abs(like0 - like1),
                  "an optimum better by %g is near %s: %s (gained %g)" % (-gain, got, best.x, like1 - like0))
        ball(st, got, True)
    else:
        mon.cls("pre-fit converged", done)
        ball(st, got, done)
    # the prior takes no part in it
    if kind == "prefit":
        _, g2, st2 = sampler(Model(case), case["guess"], True, prior=Gauss())
        mon.close("prior-free", g2, got, rtol=1e-12, msg="pre-fit with a prior")
    else:
        a = m.natural(got)[0]
        a0 = m.natural(c0)[0]
        if not (0 < a < np.inf):
            return
        if not 0.5 < a0 / a < 2:
            mon.cls("forbidden optimum", "start allowed")
        _, g2, st2 = sampler(Model(case), case["guess"], True, prior=Forbid(m, a))
        mon.close("prefit-forbidden", g2, c0, rtol=1e-12, msg="start with a forbidden optimum")
        ball(st2, c0, False)
