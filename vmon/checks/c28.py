"""C28: numbers written next to distributions are those of the samples."""
import re

import numpy as np
from astropy import units as u

from ..core import logu, sig
from .c23 import Sampler, percentile

RULE = """plot_distribution and plot_chain of random samples: any magnitude and sign of the
median, spreads from a millionth to a million times the median, symmetric to very skewed,
medians of exactly zero, repeated samples with a spread of zero on one or both sides,
linear and logarithmic labels, units. The texts of the figures are parsed. Oracle: the
percentiles of the samples; the value is written more finely than a quarter of its
uncertainty and uncertainties to better than 21 per cent; both sides are given
if they differ, upper ones as upper; median and standard deviation to three digits. Also the
converted parameter of logarithmic labels, and the numbers of walkers and steps, the mean
acceptance fraction and the autocorrelation time of chains. Non-trivial: every case."""
REQUIRED = ["value", "uncertainty", "sides", "median", "std", "converted", "zero", "degenerate", "chain"]
CASE_LIMIT = 60
LABELS = ["norm", "index", "x", "log10(norm)", "log(Ecut)", "We"]


def gen(rng, tier):
    n = {"quick": 700, "thorough": 20000}[tier]
    out = []
    for i in range(n):
        mag = rng.choice([1.0, 1.0, 10.0, logu(rng, 1e-50, 1e50), logu(rng, 1e-4, 1e4), logu(rng, 1e-4, 1e4)])
        lab = rng.choice(LABELS)
        c = {"n": rng.choice([20, 60, 200]), "rs": rng.randrange(1 << 30), "shape": rng.choice(
            ["normal", "normal", "skew", "skew", "uniform", "equal", "zero", "half", "most", "ints"]),
            "med": sig(rng.choice([1, 1, -1]) * mag, rng.choice([1, 2, 6])), "rel": sig(logu(rng, 1e-6, 1e3), 3),
            "plot": rng.choice(["dist", "dist", "chain"]), "label": lab, "unit": rng.choice([None, None, "erg", "1/(eV cm3)", ""]),
            "last": rng.random() < 0.3}
        if c["plot"] == "chain" and "log" in lab:
            c["med"] = round(rng.uniform(-30, 48), 3)
            c["rel"] = sig(logu(rng, 1e-4, 1e-1), 3) / max(abs(c["med"]), 0.1)
        out.append(c)
    return out


def samples(case):
    r = np.random.RandomState(case["rs"] % 2**31)
    n, m = case["n"], case["med"]
    s = abs(m) * case["rel"] if m else case["rel"]
    k = case["shape"]
    if k == "normal":
        return r.normal(m, s, n)
    if k == "skew":
        sg = r.choice([-1, 1])
        return m + sg * s * (np.exp(r.normal(0, 1, n)) - 1)
    if k == "uniform":
        return r.uniform(m - s, m + s, n)
    if k == "equal":
        return m + s * np.linspace(-1, 1, n)
    if k == "zero":
        return s * np.concatenate([[0.0], np.linspace(-1, -0.1, n // 2), np.linspace(0.1, 2, n // 2)])
    if k == "half":  # no spread on one side
        x = np.full(n, m)
        x[: int(0.4 * n)] += s * r.choice([-1, 1]) * (1 + r.uniform(size=int(0.4 * n)))
        return x
    if k == "most":  # no spread of the percentiles at all
        x = np.full(n, m)
        x[:2] = [m - s, m + 2 * s]
        return x
    return np.round(r.normal(0, 1 + 1e3 * case["rel"] % 30, n))


NUM = r"(-?[0-9]+(?:\.[0-9]+)?(?:e[-+]?[0-9]+)?)"


def parse(txt):
    """$...$ -> value, lower, upper, power of ten"""
    t = txt.strip().strip("$").replace(" ", "")
    p = 0
    m = re.match(r"^\((.*)\)\\times10\^\{(-?[0-9]+)\}$", t)
    if m:
        t, p = m.group(1), int(m.group(2))
    m = re.match("^" + NUM + r"\\pm" + NUM + "$", t)
    if m:
        return float(m.group(1)), float(m.group(2)), float(m.group(2)), p, True
    m = re.match("^" + NUM + r"\\times10\^\{(-?[0-9]+)\}\\pm0$", t)
    if m:
        return float(m.group(1)), 0.0, 0.0, int(m.group(2)), True
    m = re.match("^" + NUM + r"\^\{\+" + NUM + r"\}_\{-" + NUM + r"\}$", t)
    if m:
        return float(m.group(1)), float(m.group(3)), float(m.group(2)), p, False
    return None


def number(t):
    m = re.match("^" + NUM + r"(?:\\times10\^\{(-?[0-9]+)\})?$", t.strip().replace(" ", ""))
    return None if m is None else float(m.group(1)) * 10.0 ** int(m.group(2) or 0)


def look(mon, txt, d, what):
    """The text of a value with uncertainties against samples d"""
    q16, q50, q84 = (percentile(d, q) for q in (16, 50, 84))
    lo, hi = q50 - q16, q84 - q50
    got = parse(txt)
    info = dict(text=txt, percentiles=[q16, q50, q84])
    if not mon.check("value", got is not None, "%s: cannot read %r" % (what, txt), **info):
        return
    v, el, eh, p, sym = got
    s = 10.0 ** p
    v, el, eh = v * s, el * s, eh * s
    tiny = 1e-9 * abs(q50)
    res = [x for x in (lo, hi) if x > 1e-12 * abs(q50)]
    mean = (lo + hi) / 2
    if len(res) < 2:
        mon.seen("degenerate")
    if sym:
        mon.check("sides", abs(hi - lo) <= 0.2501 * mean + tiny, "%s: %r, but the sides are %g and %g"
                  % (what, txt, lo, hi), **info)
        fine = mean
        mon.check("uncertainty", abs(el - mean) <= 0.21 * mean + tiny, "%s: %r instead of %g" % (what, txt, mean), **info)
    else:
        fine = min(res) if res else 0
        mon.seen("sides")
        for name, a, b in (("lower", el, lo), ("upper", eh, hi)):
            mon.check("uncertainty", abs(a - b) <= 0.21 * b + tiny, "%s: %s uncertainty in %r instead of %g"
                      % (what, name, txt, b), **info)
    # at least as fine as a quarter of the uncertainty
    mon.check("value", abs(v - q50) <= 0.2501 * fine + (tiny if res else 6e-3 * abs(q50)),
              "%s: %r instead of %g" % (what, txt, q50), **info)


def tau(ch):
    """Autocorrelation time of the second parameter, None if emcee cannot tell"""
    from emcee import autocorr

    try:
        return autocorr.integrated_time(ch)[1]
    except autocorr.AutocorrError:
        return None


def run(case, mon):
    import matplotlib.pyplot as plt
    import naima.plot as np_

    d = samples(case)
    if np.std(d) <= 1e-9 * np.abs(d).max() or len(np.unique(d)) < 3:
        return mon.mark_trivial()
    mon.cls("shape", case["shape"])
    if np.median(d) == 0:
        mon.seen("zero")
    lab = case["label"]
    if case["plot"] == "dist":
        x = d if case["unit"] is None else d * u.Unit(case["unit"])
        f = np_.plot_distribution(x, lab)
    else:
        w = 4 if len(d) % 4 == 0 else 1
        ch = np.zeros((len(d) // w, w, 2))
        ch[..., 1] = d[: len(d) // w * w].reshape(-1, w)
        ch[..., 0] = np.random.RandomState(1).normal(size=ch.shape[:2])
        d = ch[-1, :, 1] if case["last"] else ch[..., 1].ravel()
        if len(np.unique(d)) < 3 or np.std(d) <= 1e-9 * np.abs(d).max():
            return mon.mark_trivial()
        s = Sampler(ch, np.zeros(ch.shape[:2]), None, ["first", lab], None, {})
        f = np_.plot_chain(s, 1, last_step=case["last"])
    txt = "\n".join(t.get_text() for t in f.texts)
    plt.close("all")
    unit = "" if case["plot"] == "chain" or case["unit"] is None else str(u.Unit(case["unit"]))
    lines = [ln.strip() for ln in txt.splitlines()]
    m = re.search(r"median: \$([^$]*)\$(.*), std: \$([^$]*)\$(.*)", txt)
    if mon.check("median", m, "no median in %r" % txt):
        sd = float(np.std(d))
        a, b = number(m.group(1)), number(m.group(3))
        mon.check("median", a is not None and abs(a - percentile(d, 50)) <= 6e-3 * abs(percentile(d, 50)) + 1e-12 * sd,
                  "median %s instead of %g" % (m.group(1), percentile(d, 50)))
        mon.check("std", b is not None and abs(b - sd) <= 6e-3 * sd, "standard deviation %s instead of %g" % (m.group(3), sd))
        if unit:
            mon.check("median", unit in m.group(2) and unit in m.group(4), "unit in %r" % m.group(0))
    if case["plot"] == "chain":
        for name, want, digits in (("Walkers: ", ch.shape[1], "%d"), ("Steps in chain: ", len(ch), "%d"),
                                   ("Mean acceptance fraction: ", np.mean(s.acceptance_fraction), "%.3f"),
                                   ("Autocorrelation time: ", tau(ch), "%.1f")):
            got = [ln[len(name):] for ln in lines if ln.startswith(name)]
            mon.check("chain", got == ([] if want is None else [digits % want]), "%s%s instead of %s" % (name, got, want))
        mon.check("chain", ("last ensemble" if case["last"] else "whole chain") in txt, "which samples in %r" % txt)
    val = [ln for ln in lines if ln.startswith(lab + " = $")]
    if mon.check("value", len(val) == 1, "value of %s in %r" % (lab, txt)):
        look(mon, val[0].split("$")[1], d, lab)
        mon.check("value", not unit or unit in val[0].split("$")[2], "unit in %r" % val[0])
    if case["plot"] == "chain" and "log" in lab:
        new = lab.split("(")[1].rstrip(")")
        conv = [ln for ln in lines if ln.startswith(new + " = $")]
        if mon.check("converted", len(conv) == 1, "converted value of %s in %r" % (lab, txt)):
            look(mon, conv[0].split("$")[1], 10.0**d if "10" in lab else np.exp(d), "converted " + lab)
