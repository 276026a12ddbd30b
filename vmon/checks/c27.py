"""C27: the Sherpa models are the naima models."""
import numpy as np
from astropy import units as u

from ..core import logu, sig, val

RULE = """Random sessions with the four Sherpa models: parameters of all kinds are set
one after another on one or two live instances with caching on, and the model is
called on points or on consecutive bins in keV, on the same or another grid, by call,
through calc with or without keywords, inside of a sum and product, and by a Sherpa
fit. Oracles: the naima model of the documented units and particle distribution, built
afresh; points are energy times flux, bins are the integral of the flux over each bin,
both in photons per second and cm2; the guess rescales only the amplitude to the flux
of the data; a fit to data of known parameters finds them. Non-trivial: every case."""
REQUIRED = ["points", "bins", "cutoff", "power-law", "guess", "guess-others", "repeat", "fit", "composite",
            "parameters"]
CASE_LIMIT = 150
CLS = ["InverseCompton", "Synchrotron", "Bremsstrahlung", "PionDecay"]
RANGE = {"InverseCompton": (1e2, 1e11), "Synchrotron": (1e-6, 1e5), "Bremsstrahlung": (1e3, 1e10),
         "PionDecay": (1e5, 1e11)}
OWN = {"InverseCompton": ["TFIR", "uFIR", "TNIR", "uNIR"], "Synchrotron": ["B"],
       "Bremsstrahlung": ["n0", "weight_ee", "weight_ep"], "PionDecay": ["nh"]}


def draw(rng, c, name):
    if name == "index":
        return round(rng.uniform(1.2, 3.5), 3)
    if name == "ref":
        return sig(logu(rng, 1e-2, 1e3))
    if name == "ampl":
        return sig(logu(rng, 1e-6, 1e8))
    if name == "cutoff":
        return rng.choice([0.0, sig(logu(rng, 0.1, 1e3))])
    if name == "beta":
        return rng.choice([1.0, 2.0, 0.5, round(rng.uniform(0.3, 3), 2)])
    if name == "distance":
        return sig(logu(rng, 0.1, 1e5))
    if name in ("TFIR", "TNIR"):
        return sig(logu(rng, 3, 1e4))
    if name in ("uFIR", "uNIR"):
        return rng.choice([0.0, sig(logu(rng, 1e-2, 1e2))])
    if name == "B":
        return sig(logu(rng, 1e-7, 5))
    if name in ("n0", "nh"):
        return sig(logu(rng, 1e-3, 1e4))
    return rng.choice([0.0, 1.0] + 4 * [round(rng.uniform(0, 3), 3)])


def grid(rng, c):
    lo, hi = RANGE[c]
    a = logu(rng, lo, hi / 10)
    b = a * logu(rng, 3, min(1e5, hi / a))
    n = rng.choice([1, 2, 5, 12])
    return {"lo": sig(a), "hi": sig(b), "n": n, "bins": rng.random() < 0.5,
            "jit": [round(rng.uniform(0.15, 0.85), 3) for _ in range(n + 1)], "rev": rng.random() < 0.2}


def gen(rng, tier):
    n = 220 if tier == "quick" else 5000
    out = []
    for i in range(n):
        c = CLS[i % 4] if i % 12 < 8 else rng.choice(CLS[:3])
        pars = ["index", "ref", "ampl", "cutoff", "beta", "distance"] + OWN[c]
        start = {p: draw(rng, c, p) for p in pars if rng.random() < 0.6}
        grids = [grid(rng, c) for _ in range(2)]
        steps = []
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(["set", "set", "tiny", "nothing", "set2"])
            p = rng.choice(pars)
            steps.append([k, p, draw(rng, c, p), rng.randrange(2), rng.choice(["call", "calc", "kw"]),
                          rng.randrange(2)])
        out.append({"cls": c, "start": start, "grids": grids, "steps": steps,
                    "guess": sig(logu(rng, 1e-4, 1e5)), "tilt": round(rng.uniform(-0.7, 0.7), 2),
                    "fit": i % 10 == 0 and c != "PionDecay", "two": rng.random() < 0.3,
                    "name": rng.choice([None, "src", "a b"])})
    return out


def edges(g):
    n = g["n"]
    k = (np.arange(n + 1) + np.array(g["jit"])) / (n + 1)
    x = g["lo"] * (g["hi"] / g["lo"]) ** np.sort(k)
    return x


def loglog(y, x):
    """Integral of y over each interval of x, power laws in between"""
    y1, y2, x1, x2 = y[:-1], y[1:], x[:-1], x[1:]
    with np.errstate(all="ignore"):
        s = np.log(y2 / y1) / np.log(x2 / x1) + 1
        L = np.log(x2 / x1)
        z = s * L
        r = x1 * y1 * L * np.where(np.abs(z) < 1e-4, 1 + z / 2 + z * z / 6, np.expm1(z) / z)
    return np.where((y1 > 0) & (y2 > 0), r, 0.0)


def reference(c, p, x):
    """1/(s cm2 keV) at x [keV]"""
    import naima.models as nm

    args = [p["ampl"] * 1e30 / u.eV, p["ref"] * u.TeV, p["index"]]
    if p["cutoff"] == 0:
        pd = nm.PowerLaw(*args)
    else:
        pd = nm.ExponentialCutoffPowerLaw(*args, e_cutoff=p["cutoff"] * u.TeV, beta=p["beta"])
    if c == "InverseCompton":
        f = ["CMB"]
        for k in ("FIR", "NIR"):
            if p["u" + k] > 0:
                f.append([k, p["T" + k] * u.K, p["u" + k] * u.eV / u.cm**3])
        m = nm.InverseCompton(pd, seed_photon_fields=f, Eemin=1 * u.GeV, Eemax=100 * u.TeV)
    elif c == "Synchrotron":
        m = nm.Synchrotron(pd, B=p["B"] * u.G)
    elif c == "Bremsstrahlung":
        m = nm.Bremsstrahlung(pd, n0=p["n0"] / u.cm**3, weight_ee=p["weight_ee"], weight_ep=p["weight_ep"])
    else:
        m = nm.PionDecay(pd, nh=p["nh"] / u.cm**3)
    return val(m.flux(x * u.keV, distance=p["distance"] * u.kpc), "1/(s cm2 keV)", len(x))


def current(m, c):
    return {n: float(getattr(m, n).val) for n in
            ["index", "ref", "ampl", "cutoff", "beta", "distance"] + OWN[c]}


def expect(c, p, x, bins):
    f = reference(c, p, x)
    return loglog(f, x) if bins else f * x


def evaluate(m, how, x, bins):
    p = [q.val for q in m.pars]
    if bins:
        if how == "call":
            return m(x[:-1], x[1:])
        if how == "calc":
            return m.calc(p, x[:-1], x[1:])
        return m.calc(p, x[:-1], xhi=x[1:])
    return m(x) if how == "call" else m.calc(p, x)


def run(case, mon):
    import logging

    logging.getLogger("sherpa").setLevel(logging.ERROR)
    import naima.sherpa_models as S

    c = case["cls"]
    mon.cls("model", c)
    K = getattr(S, c)
    ms = [K(case["name"]) if case["name"] else K()]
    ms.append(K("other") if case["two"] else ms[0])
    for k, v in case["start"].items():
        setattr(ms[0], k, v)

    shadow = [current(m, c) for m in ms]
    for k, v in case["start"].items():
        mon.close("parameters", shadow[0][k], v, rtol=1e-12, msg="parameter " + k)
    seen = {}
    for kind, par, v, gi, how, who in case["steps"]:
        m = ms[who]
        if kind == "tiny":
            old = getattr(m, par).val
            setattr(m, par, old * (1 + 1e-9))
            shadow[who if case["two"] else 0][par] = old * (1 + 1e-9)
        elif kind != "nothing":
            setattr(m, par, v)
            shadow[who if case["two"] else 0][par] = v
        p = shadow[who if case["two"] else 0]
        g = case["grids"][gi]
        x = edges(g)
        if not g["bins"] and g["rev"]:
            x = x[::-1]
        x0 = x.copy()
        got = evaluate(m, how, x, g["bins"])
        want = expect(c, p, x, g["bins"])
        tag = "bins" if g["bins"] else "points"
        floor = 1e-12 * np.abs(want).max() + 1e-300
        mon.close(tag, np.asarray(got, float), want, rtol=1e-6, atol=floor,
                  msg="%s of %s at %s" % (tag, c, p))
        mon.check("cutoff" if p["cutoff"] else "power-law", np.shape(got) == np.shape(want), "shape")
        mon.check("parameters", np.array_equal(x, x0), "grid was changed")
        key = (who, gi, how, tuple(sorted(p.items())))
        if key in seen:
            mon.check("repeat", np.array_equal(seen[key], got), "another result for the same evaluation")
        again = evaluate(m, how, x, g["bins"])
        mon.check("repeat", np.array_equal(again, got), "another result when repeated")
        seen[key] = np.array(got)
        # editing the result does not change later ones
        if np.ndim(got):
            got = np.asarray(got)
            if got.flags.writeable:
                got[:] = -1.0
        mon.close("repeat", np.asarray(evaluate(m, how, x, g["bins"]), float), want, rtol=1e-6, atol=floor,
                  msg="after editing the result")
        for m2, s2 in list(zip(ms, shadow))[: 2 if case["two"] else 1]:
            mon.check("parameters", all(abs(a - s2[n]) <= 1e-12 * abs(s2[n])
                                        for n, a in current(m2, c).items()), "parameters changed")

    # composite
    p = current(ms[0], c)
    g = dict(case["grids"][0], rev=False, n=max(3, case["grids"][0]["n"]))
    g["jit"] = (g["jit"] * 4)[: g["n"] + 1]
    x = edges(g)
    want = expect(c, p, x, g["bins"])
    two = 2.0 * ms[0] + ms[0]
    got = two(x[:-1], x[1:]) if g["bins"] else two(x)
    mon.close("composite", np.asarray(got, float), 3 * want, rtol=1e-6,
              atol=1e-12 * np.abs(want).max() + 1e-300, msg="composite model")

    # guess
    if not np.all(want > 0):
        return
    xx = x[:-1] if g["bins"] else x
    dep = want * case["guess"] * (xx / xx[0]) ** case["tilt"]
    m = ms[0]
    fl = loglog(dep, xx).sum() / loglog(want, xx).sum()
    if 0 < p["ampl"] * fl < 1e59 and np.isfinite(fl):
        d0 = dep.copy()
        if g["bins"]:
            m.guess(dep, x[:-1], x[1:])
        else:
            m.guess(dep, x)
        q = current(m, c)
        mon.close("guess", q["ampl"], p["ampl"] * fl, rtol=1e-5, msg="guessed amplitude")
        mon.check("guess-others", all(q[n] == p[n] for n in q if n != "ampl"), "other parameters changed")
        mon.check("guess-others", np.array_equal(dep, d0), "data changed")
        new = expect(c, q, x, g["bins"])
        mon.close("guess", loglog(new, xx).sum(), loglog(dep, xx).sum(), rtol=1e-5, msg="flux after guess")

    # a single point or bin, and data from which a background was subtracted
    q = current(m, c)
    one = want[:1] * case["guess"] * q["ampl"] / p["ampl"]
    if 0 < q["ampl"] * case["guess"] < 1e59:
        m.guess(one, *((x[:1], x[1:2]) if g["bins"] else (x[:1],)))
        mon.close("guess", current(m, c)["ampl"], q["ampl"] * case["guess"], rtol=1e-5, msg="guessed from a single sample")
        mon.cls("guess", "single")
    q = current(m, c)
    dep = want * q["ampl"] / p["ampl"]
    dep[len(dep) // 2] *= -0.3
    m.guess(dep, *((x[:-1], x[1:]) if g["bins"] else (x,)))
    r = current(m, c)
    mon.check("guess", np.isfinite(r["ampl"]) and r["ampl"] > 0, "amplitude %r guessed from %r" % (r["ampl"], dep))
    mon.check("guess-others", all(r[n] == q[n] for n in q if n != "ampl"), "other parameters changed")

    if case["fit"]:
        from sherpa.data import Data1D, Data1DInt
        from sherpa.fit import Fit
        from sherpa.optmethods import LevMar
        from sherpa.stats import Chi2

        q = current(m, c)
        true = expect(c, q, x, g["bins"])
        if g["bins"]:
            d = Data1DInt("d", x[:-1], x[1:], true, staterror=0.05 * true)
        else:
            d = Data1D("d", x, true, staterror=0.05 * true)
        thawed = sorted(t.name for t in m.pars if not t.frozen)
        mon.check("fit", thawed == ["ampl", "index"], "free parameters %s" % thawed)
        m.index = q["index"] + 0.05
        m.ampl = q["ampl"] * 1.3
        f = Fit(d, m, stat=Chi2(), method=LevMar())
        start = f.calc_stat()
        r = f.fit()
        mon.check("fit", r.statval <= start, "statistic %g after the fit, %g before" % (r.statval, start))
        final = np.asarray(m(x[:-1], x[1:]) if g["bins"] else m(x), float)
        chi = (((final - true) / (0.05 * true)) ** 2).sum()
        mon.close("fit", r.statval, chi, rtol=1e-3, atol=1e-6, msg="statistic")
        mon.check("fit", chi < 0.5, "fit does not reproduce its data: chi2 %g from %g" % (chi, start))
        mon.sample(model=c, chi2_start=float(start), chi2_end=float(chi))
