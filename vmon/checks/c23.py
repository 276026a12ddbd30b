"""C23: the table of results."""
import hashlib
import math
import os
import shutil
import tempfile

import numpy as np
from astropy import units as u
from astropy.table import Table

from .. import fit as F

RULE = """Results tables of short MCMC runs and of synthetic runs (random chains, also
skewed, constant or spanning many decades) with parameters that are linear or
logarithmic by their labels, scalar and other outputs with and without units, whole
run or last step, all options, several file formats. Oracles: median and distances to
the 16th and 84th percentile of the recorded samples, computed independently; one more row
with the values converted for logarithmic parameters; a row for each scalar output;
the most probable sample, its probability, and the Bayesian information criterion;
file and returned table agree; existing files are only replaced on request.
Non-trivial: every case."""
REQUIRED = ["rows", "percentiles", "log-rows", "blob-rows", "ml", "bic", "file", "file-metadata",
            "kept-file", "run-info", "original"]


class Sampler:
    """What the analysis functions read of a finished run"""

    def __init__(self, chain, lp, blobs, labels, data, info):
        self.chain, self.lp, self.blobs = chain, lp, blobs
        self.labels, self.data, self.run_info = labels, data, info
        self.acceptance_fraction = 0.2 + 0.6 * np.linspace(0, 1, chain.shape[1]) ** 3  # skewed

    def _flat(self, v, flat):
        return v.reshape((-1, *v.shape[2:])) if flat else v

    def get_chain(self, flat=False, **k):
        return self._flat(self.chain, flat)

    def get_log_prob(self, flat=False, **k):
        return self._flat(self.lp, flat)

    def get_blobs(self, flat=False, **k):
        return self._flat(self.blobs, flat)


LABELS = ["norm", "log10(norm)", "log(b)", "index", "log10(Ec/TeV)", "We [erg]", "β", "log10(We [erg])",
          "x" * 80, "log(x)", "my log10(x)", "2 log(y)"]
BLOBS = ["erg", "float", "npfloat", "array", "pair", "q0", "int", "text", "dimless"]


def gen(rng, tier):
    n = 500 if tier == "quick" else 20000
    out = []
    for _ in range(n):
        npar = rng.randint(1, 5)
        out.append(dict(
            labels=[rng.choice(LABELS) for _ in range(npar)], blobs=[rng.choice(BLOBS) for _ in
                                                                      range(rng.randint(0, 5))],
            steps=rng.choice([1, 2, 7, 30, 100]), walkers=rng.choice([2, 4, 11, 30]),
            dist=[rng.choice(["normal", "lognormal", "uniform", "const", "wide"]) for _ in range(npar)],
            ndata=rng.randint(2, 40), seed=rng.randrange(1 << 30),
            format=rng.choice(["ascii.ecsv", "ascii.ecsv", "ascii.ecsv", "ascii.ipac", "ascii.csv"]),
            convert_log=rng.choice([True, True, None, False]), last_step=rng.choice([True, False, None]),
            include_blobs=rng.choice([True, None, None, False]), lp=rng.choice(["normal", "neg", "ties"]),
            real=rng.random() < 0.15, form=rng.choice(F.FORMS)))
    return out


def percentile(x, q):
    """Linear interpolation between order statistics"""
    s = sorted(float(v) for v in x)
    pos = (len(s) - 1) * q / 100
    i = int(math.floor(pos))
    return s[i] if i + 1 >= len(s) else s[i] + (s[i + 1] - s[i]) * (pos - i)


def blob(kind, rs):
    v = float(np.exp(rs.normal(0, 2)))
    return {"erg": v * 1e40 * u.erg, "float": v, "npfloat": np.float64(-v), "array": np.array([v, v]) * u.eV,
            "pair": (np.array([1.0, 2]) * u.TeV, np.array([v, 2])), "q0": u.Quantity(v, "TeV / (cm2 s)"),
            "int": int(v * 100), "text": "no", "dimless": u.Quantity(v)}[kind]


def scalar(x):
    return (isinstance(x, u.Quantity) and x.size == 1) or isinstance(x, (int, float, np.number))


def synthetic(case, rs):
    sh = (case["steps"], case["walkers"])
    chain = np.empty((*sh, len(case["labels"])))
    for i, d in enumerate(case["dist"]):
        chain[..., i] = {"normal": lambda: rs.normal(rs.normal(), 0.5, sh), "lognormal": lambda:
                         np.exp(rs.normal(0, 1, sh)), "uniform": lambda: rs.uniform(-3, 2, sh),
                         "const": lambda: np.full(sh, rs.normal()),
                         "wide": lambda: rs.uniform(-60, 60, sh)}[d]()
    lp = {"normal": lambda: rs.normal(-20, 5, sh), "neg": lambda: -np.exp(rs.normal(3, 3, sh)),
          "ties": lambda: np.round(rs.normal(-5, 2, sh))}[case["lp"]]()
    nb = len(case["blobs"]) + 1
    blobs = np.empty((*sh, nb), dtype=object)
    for i in range(sh[0]):
        for w in range(sh[1]):
            blobs[i, w, 0] = rs.normal(1, 0.1, case["ndata"]) * u.Unit("erg/(cm2 s)")
            for j, k in enumerate(case["blobs"]):
                blobs[i, w, j + 1] = blob(k, rs)
    data = Table({"energy": np.arange(case["ndata"]) + 1.0})
    info = {"n_walkers": sh[1], "n_burn": 3, "p0": [float(x) for x in chain[0, 0]], "guess": True,
            "n_run": sh[0]}
    return Sampler(chain, lp, blobs, list(case["labels"]), data, info)


def real(case):
    import naima

    import random

    rng = random.Random(case["seed"])
    pr = F.gen_problem(rng, npt=4)
    while not F.distinct(pr):
        pr = F.gen_problem(rng, npt=4)
    pr["form"] = case["form"]
    m = F.Model(pr)
    np.random.seed(case["seed"] % 2**31)
    s, _ = F.silent(naima.run_sampler, data_table=F.tables(pr), p0=[1.0, 0.3], model=m, prior=None,
                    nwalkers=6, nburn=0, nrun=min(case["steps"], 10), guess=False, threads=1,
                    labels=["log10(norm)", "index"])
    return s


def run(case, mon):
    import naima

    rs = np.random.RandomState(case["seed"] % 2**31)
    s = real(case) if case["real"] else synthetic(case, rs)
    mon.cls("sampler", "emcee" if case["real"] else "synthetic")
    chain, lp, blobs = np.array(s.get_chain()), np.array(s.get_log_prob()), s.get_blobs()
    labels, info = list(s.labels), dict(s.run_info)
    kw = {k: case[k] for k in ("convert_log", "last_step", "include_blobs") if case[k] is not None}
    conv = case["convert_log"] is not False
    inc = case["include_blobs"] is not False
    last = bool(case["last_step"])
    fmt = case["format"]
    mon.cls("format", fmt)
    tmp = tempfile.mkdtemp(prefix="vmon23")
    try:
        name = os.path.join(tmp, "o")
        t = naima.save_results_table(name, s, format=fmt, **kw)
        ext = "ecsv" if fmt == "ascii.ecsv" else "dat"
        fn = name + "_results." + ext
        mon.check("file", os.listdir(tmp) == [os.path.basename(fn)], "files %s" % os.listdir(tmp))

        # expected rows
        want = []
        flat = chain[-1] if last else chain.reshape(-1, chain.shape[-1])
        for i, lab in enumerate(labels):
            want.append((lab, flat[:, i], "percentiles"))
            if conv and lab.startswith("log10("):
                want.append((lab[6:].rstrip(")"), 10.0 ** flat[:, i], "log-rows"))
            elif conv and lab.startswith("log("):
                want.append((lab[4:].rstrip(")"), np.exp(flat[:, i]), "log-rows"))
        units = {}
        if inc:
            for j in range(len(blobs[0][0])):
                if scalar(blobs[0][0][j]):
                    steps = [blobs[-1]] if last else blobs
                    d = [w[j] for st in steps for w in st]
                    un = getattr(d[0], "unit", None)
                    if un is not None and un != u.dimensionless_unscaled:
                        units["blob%d_unit" % j] = un
                    d = np.array([float(getattr(x, "value", x)) for x in d])
                    if np.all(np.isnan(d)):
                        # filler, in whatever place
                        continue
                    want.append(("blob%d" % j, d, "blob-rows"))

        def table(x, what, rtol):
            rows = [(str(r["label"]), float(r["median"]), float(r["unc_lo"]), float(r["unc_hi"])) for r in x]
            rows = [r for r in rows if not (r[0].startswith("blob") and np.isnan(r[1]))]
            lab = [r[0] for r in rows]
            if not mon.check("rows", lab == [w[0] for w in want],
                             "%s: rows %s instead of %s" % (what, lab, [w[0] for w in want])):
                return
            for r, (lab, d, rule) in zip(rows, want):
                p = [percentile(d, q) for q in (16, 50, 84)]
                sc = max(abs(x) for x in p) or 1.0
                mon.close(rule, r[1:], [p[1], p[1] - p[0], p[2] - p[1]], rtol=rtol, atol=rtol * sc,
                          msg="%s: row %s" % (what, lab))

        table(t, "returned", 1e-9)
        i = np.unravel_index(np.argmax(lp), lp.shape)

        def meta(m, what, rtol):
            ml = chain[i]
            mon.close("ml", m["MaxLogLikelihood"], lp.max(), rtol=rtol, msg=what)
            # any of the most probable samples
            ok = any(np.allclose(np.asarray(m["ML_pars"], float), chain[k], rtol=rtol, atol=0)
                     for k in zip(*np.nonzero(lp == lp.max())))
            mon.check("ml", ok, "%s: ML_pars %s, most probable sample %s" % (what, m["ML_pars"], ml))
            bic = chain.shape[-1] * np.log(len(s.data)) - 2 * lp.max()
            mon.close("bic", m["BIC"], bic, rtol=rtol, atol=rtol * abs(lp.max()), msg=what)
            mon.check("run-info", int(m["n_samples"]) == len(flat), "%s: n_samples %s for %d" % (
                what, m["n_samples"], len(flat)))
            for k, v in info.items():
                w = m.get(k)
                mon.check("run-info", np.array_equal(np.asarray(w), np.asarray(v)),
                          "%s: %s is %r instead of %r" % (what, k, w, v))
            for k, v in units.items():
                mon.check("blob-rows", k in m and u.Unit(m[k]) == v, "%s: unit of %s: %s, not %s" % (
                    what, k, m.get(k), v))
            mon.check("blob-rows", {k for k in m if k.endswith("_unit") and m[k]} == set(units),
                      "units %s" % sorted(m))

        if fmt == "ascii.ipac":
            kwd = {k: v["value"] for k, v in t.meta["keywords"].items()}
            meta(kwd, "returned", 1e-12)
        else:
            meta(t.meta, "returned", 1e-12)
        if fmt == "ascii.ecsv":
            r = Table.read(fn, format=fmt)
            table(r, "file", 1e-9)
            meta(r.meta, "file", 1e-12)
            mon.seen("file-metadata")
        elif fmt == "ascii.csv" or not any(" " in x for x in labels):
            r = Table.read(fn, format=fmt)
            mon.check("file", len(r) == len(t), "%d rows in the file, %d in the table" % (len(r), len(t)))
            for c in ("median", "unc_lo", "unc_hi"):
                mon.close("file", np.array(r[c], float), np.array(t[c]), rtol=1e-7, msg="file column " + c)

        with open(fn, "rb") as fh:
            h = hashlib.sha256(fh.read()).hexdigest()
        mon.raises("kept-file", OSError, lambda: naima.save_results_table(name, s, format=fmt,
                                                                         include_blobs=False),
                   "existing file")
        with open(fn, "rb") as fh:
            mon.check("kept-file", hashlib.sha256(fh.read()).hexdigest() == h,
                      "existing file was changed")
        want = [w for w in want if w[2] != "blob-rows"]
        table(naima.save_results_table(name, s, format=fmt, overwrite=True,
                                       **dict(kw, include_blobs=False)), "overwritten", 1e-9)
        with open(fn, "rb") as fh:
            mon.seen("kept-file")
            if t.colnames and len(want) != len(t):
                mon.check("kept-file", hashlib.sha256(fh.read()).hexdigest() != h, "not overwritten")
        mon.check("original", np.array_equal(chain, s.get_chain()) and list(s.labels) == labels
                  and s.run_info == info and np.array_equal(lp, s.get_log_prob()),
                  "the sampler was changed")
        mon.sample(labels=labels, rows=len(t), samples=len(flat))
    finally:
        shutil.rmtree(tmp)
