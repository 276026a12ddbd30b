"""C22: runs are saved and read back without loss."""
import hashlib
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
from astropy import units as u

from .. import fit as F
from ..core import val

RULE = """Short MCMC runs of random problems, with every form of model output
(bare, tuples, scalars with and without units, pairs and triples of arrays, arrays of equal
length, outputs that cannot be stored), labels of many kinds and random run
information, are saved (compressed or not, .h5 or .hdf5, string or Path) and read
back, saved again and read again. Oracles: every sample, probability, output with its
unit, label, column of the data table, and item of run information is the original; the
original is untouched; an existing file is kept unless overwriting is requested; the
maximum likelihood and results table of both are the same. Non-trivial: every case."""
REQUIRED = ["chain", "log-prob", "blobs", "data", "labels", "run-info", "second-generation",
            "kept-file", "overwrite", "same-analysis", "original", "unsupported"]
CASE_LIMIT = 120
FORMS = [*F.FORMS, "triple", "odd", "lists", "many"]


def gen(rng, tier):
    n = 220 if tier == "quick" else 6000
    out = []
    for _ in range(n):
        p = F.gen_problem(rng, npt=rng.choice([1, 2, 3, 8]))
        p["form"] = rng.choice(FORMS)
        p.update(nw=rng.choice([4, 6, 10]), nrun=rng.choice([1, 2, 5, 9]), nburn=rng.choice([0, 2]),
                 labels=rng.choice([None, ["norm", "index"], ["log10(norm)", "log(b)"],
                                    ["α [TeV]", "x" * 90], ["", "a b c"], ["norm"]]),
                 ext=rng.choice([".h5", ".hdf5"]), path=rng.random() < 0.5,
                 compression=rng.random() < 0.6, rs=rng.randrange(1 << 30),
                 guess=rng.random() < 0.3, more=rng.choice([0, 0, 0, 0, 1, 9, 12]))
        p["nw"] = max(p["nw"], 2 * (2 + p["more"]))
        out.append(p)
    return out


class Model(F.Model):
    def __call__(self, pars, data):
        form = self.pr["form"]
        if form in F.FORMS:
            return super().__call__(pars, data)
        e = data["energy"].to("eV").value
        m = (self.values(pars, e) * u.Unit(F.D.REF[self.pr["mkind"]])).to(self.pr["munit"])
        x = np.array([1.0, 2.0, 3.0, 4.5]) * pars[1]
        if form == "triple":
            return m, (x * u.TeV, x**2 * u.G, x**3), pars[0] * u.cm
        if form == "odd":
            return m, "a text", pars[0] * u.erg, {"a": 1}, float(pars[1])
        if form == "lists":
            return m, [x * u.eV, x / u.s], int(3), np.float64(pars[0])
        if form == "many":
            # up to 30 outputs
            return m, *[(pars[0] * k * u.erg, x * k * u.G, (x * u.TeV, x / k))[k % 3]
                        for k in range(1, 5 + self.pr["rs"] % 26)]
        raise KeyError(form)


ODD = (str, dict)


def digest(f):
    with open(f, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def flat_blobs(s):
    b = s.get_blobs()
    return [[list(w) for w in st] for st in b]


def plain(x):
    """(list of) (values, unit)"""
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    un = getattr(x, "unit", u.dimensionless_unscaled)
    return np.array(getattr(x, "value", x), dtype=float), un


def equal(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a[1] == b[1] and a[0].shape == b[0].shape and np.array_equal(a[0], b[0], equal_nan=True)


def compare(mon, case, s, r, what):
    ch, lp = np.asarray(s.get_chain()), np.asarray(s.get_log_prob())
    mon.check("chain", np.array_equal(ch, np.asarray(r.get_chain()))
              and np.array_equal(s.get_chain(flat=True), r.get_chain(flat=True)), what + ": chain differs")
    mon.check("log-prob", np.array_equal(lp, np.asarray(r.get_log_prob()))
              and np.array_equal(s.get_log_prob(flat=True), r.get_log_prob(flat=True)),
              what + ": log-probabilities differ")
    b0, b1 = s.get_blobs(), r.get_blobs()
    mon.check("blobs", np.shape(b0)[:2] == np.shape(b1)[:2] and len(b0[0][0]) == len(b1[0][0]),
              "%s: outputs of shape %s instead of %s" % (what, np.shape(b1), np.shape(b0)))
    for i in range(len(b0)):
        for w in range(len(b0[i])):
            for j, a in enumerate(b0[i][w]):
                c = b1[i][w][j]
                if isinstance(a, ODD):
                    # cannot be stored, but keeps its place
                    mon.seen("unsupported")
                    continue
                if not mon.check("blobs", equal(plain(a), plain(c)),
                                 "%s: output %d of step %d walker %d: read %r, saved %r"
                                 % (what, j, i, w, c, a)):
                    return
    mon.check("labels", list(r.labels) == list(s.labels)[: len(r.labels)]
              and len(r.labels) == ch.shape[-1], "%s: labels %r, saved %r" % (what, r.labels, s.labels))
    d0, d1 = s.data, r.data
    mon.check("data", list(d0.colnames) == list(d1.colnames) and len(d0) == len(d1),
              "%s: columns %s instead of %s" % (what, d1.colnames, d0.colnames))
    for k in d0.colnames:
        x, y = d0[k], d1[k]
        ux, uy = getattr(x, "unit", None), getattr(y, "unit", None)
        ok = ux == uy and np.array_equal(np.asarray(getattr(x, "value", x)),
                                         np.asarray(getattr(y, "value", y)))
        ok = ok and np.asarray(x).dtype.kind == np.asarray(y).dtype.kind
        mon.check("data", ok, "%s: column %s: %r instead of %r" % (what, k, y, x))
    for k, v in s.run_info.items():
        if k not in r.run_info:
            mon.check("run-info", False, "%s: %s is missing" % (what, k))
            continue
        w = r.run_info[k]
        mon.check("run-info", np.array_equal(np.asarray(w), np.asarray(v)) or str(v) == str(w),
                  "%s: %s is %r instead of %r" % (what, k, w, v))
    mon.close("run-info", np.mean(r.acceptance_fraction), np.mean(s.acceptance_fraction), rtol=1e-12,
              msg="acceptance fraction")


def run(case, mon):
    import naima
    from naima.plot import find_ML

    if not F.distinct(case):
        return mon.mark_trivial()
    m = Model(case)
    prior = None if case["prior"] is None else F.Prior(case["prior"])
    np.random.seed(case["rs"] % 2**31)
    s, _ = F.silent(naima.run_sampler, data_table=F.tables(case), p0=[1.0, 0.3] + [0.5 * k - 1.3 for k in range(case["more"])], model=m, prior=prior,
                    nwalkers=case["nw"], nburn=case["nburn"], nrun=case["nrun"], guess=case["guess"],
                    threads=1, labels=case["labels"], data_sed=case["data_sed"])
    mon.cls("form", case["form"])
    mon.cls("ext", case["ext"])
    s.run_info["note"] = "a note: é"
    s.run_info["numbers"] = [1, 2, 3]
    s.run_info["options"] = {"walkers": case["nw"], "steps": "%d" % case["nrun"]}
    s.run_info["nothing"] = None
    chain0, blobs0, data0 = s.get_chain().copy(), flat_blobs(s), s.data.copy()
    info0, labels0 = dict(s.run_info), list(s.labels)
    tmp = tempfile.mkdtemp(prefix="vmon22")
    try:
        fn = os.path.join(tmp, "run" + case["ext"])
        arg = Path(fn) if case["path"] else fn
        naima.save_run(arg, s, compression=case["compression"])
        mon.check("original", np.array_equal(s.get_chain(), chain0) and s.run_info == info0
                  and list(s.labels) == labels0 and all(
                      np.array_equal(np.asarray(s.data[c]), np.asarray(data0[c])) for c in data0.colnames)
                  and all(equal(plain(a), plain(b)) for sa, sb in zip(flat_blobs(s), blobs0)
                          for wa, wb in zip(sa, sb) for a, b in zip(wa, wb) if not isinstance(a, ODD)),
                  "saving changed the sampler")
        mon.check("kept-file", os.path.exists(fn) and os.listdir(tmp) == [os.path.basename(fn)],
                  "files %s" % os.listdir(tmp))
        h = digest(fn)
        r = naima.read_run(arg, modelfn=m)
        mon.check("labels", r.modelfn is m, "model function not attached")
        compare(mon, case, s, r, "read back")
        mon.check("kept-file", digest(fn) == h, "reading changed the file")
        # not overwritten unless requested
        other = r
        np.random.seed(1)
        naima.save_run(arg, other)
        mon.check("kept-file", digest(fn) == h, "overwritten without being requested")
        # again from what was read, over a file with something else in it
        fn2 = os.path.join(tmp, "b" + case["ext"])
        with open(fn2, "wb") as fh:
            fh.write(b"x" * 300000)
        naima.save_run(fn2, r, compression=not case["compression"], clobber=True)
        r2 = naima.read_run(fn2)
        mon.seen("overwrite")
        compare(mon, case, s, r2, "second generation")
        mon.seen("second-generation")
        naima.save_run(fn, r2, clobber=True)
        compare(mon, case, s, naima.read_run(fn), "overwritten")
        # what is derived from it
        a, b = (find_ML(x, 0) for x in (s, r))
        mon.check("same-analysis", a[0] == b[0] and np.array_equal(a[1], b[1])
                  and np.array_equal(a[2], b[2])
                  and np.array_equal(val(a[3][1], a[3][1].unit), val(b[3][1], a[3][1].unit)),
                  "maximum likelihood of the saved and read run: %r, %r" % (a, b))
        if case["form"] not in ("odd",) and case["labels"] != ["", "a b c"]:
            ta = naima.save_results_table(os.path.join(tmp, "a"), s)
            tb = naima.save_results_table(os.path.join(tmp, "b"), r)
            nd = range(len(ta))
            la, lb = list(ta["label"]), list(tb["label"])
            ok = True
            for i in nd:
                ok = ok and la[i] in lb
                if ok:
                    j = lb.index(la[i])
                    ok = all(np.array_equal(ta[c][i], tb[c][j], equal_nan=True)
                             for c in ("median", "unc_lo", "unc_hi"))
            mon.check("same-analysis", ok, "results tables differ: %s %s" % (ta, tb))
            mon.check("same-analysis", all(ta.meta[k] == tb.meta[k] for k in
                                           ("ML_pars", "MaxLogLikelihood", "BIC", "n_samples")),
                      "metadata of the results tables differ")
        mon.sample(form=case["form"], outputs=len(blobs0[0][0]), size=os.path.getsize(fn))
    finally:
        shutil.rmtree(tmp)
