"""C19: the record of an MCMC run is coherent."""
import contextlib
import copy
import io
import re

import numpy as np
from astropy import units as u

from .. import fit as F
from ..core import val

RULE = """Short MCMC runs of random problems (data in random form, models with
every documented form of output, priors that exclude part of the space), with and
without burn-in, run in one or several calls. A monitor inside the model records
each evaluation. Oracles over the finished record: every stored log-probability
is the reference value at its stored position; every stored output is what the
model returns there, with units; every stored position was evaluated; a walker
that did not move keeps its record; the burn-in is discarded; the final state is
the last step; the metadata describes the run; the progress that is printed is that of the
recorded ensembles. Non-trivial: some walker moved."""
REQUIRED = ["log-prob", "blobs", "evaluated", "not-moved", "length", "final-state", "metadata",
            "forbidden", "initial-ball", "continued", "reproducible", "progress"]


def gen(rng, tier):
    n = 240 if tier == "quick" else 8000
    out = []
    for _ in range(n):
        p = F.gen_problem(rng, npt=rng.choice([2, 3, 5, 8]))
        p.update(nw=rng.choice([4, 6, 10, 20]), nburn=rng.choice([0, 1, 5]),
                 nrun=rng.choice([1, 2, 6, 12, 12, 45]), p0=[rng.uniform(0.5, 2),
                                                    rng.uniform(0.05, 0.6)],
                 labels=rng.choice([None, ["norm", "index"], ["norm"], ("amplitude", "g")]))
        for k in range(rng.choice([0, 0, 0, 0, 1, 2, 10])):
            # the model does not care about them
            p["p0"].append(rng.uniform(-3, 3))
        p["nw"] = max(p["nw"], 2 * len(p["p0"]))
        out.append(p)
    return out


def examine(mon, case, m, s, calls, nrun, what):
    ch = np.asarray(s.get_chain())
    lp = np.asarray(s.get_log_prob())
    bl = s.get_blobs()
    nw = case["nw"]
    mon.check("length", ch.shape == (nrun, nw, len(case["p0"])) and lp.shape == (nrun, nw)
              and np.shape(bl)[:2] == (nrun, nw),
              "%s: record of shape %s, %s, %s for %d steps of %d walkers"
              % (what, ch.shape, lp.shape, np.shape(bl), nrun, nw))
    if ch.shape != (nrun, nw, len(case["p0"])):
        return
    want = np.array([[F.ref_lnprob(m, p) for p in st] for st in ch])
    marg = np.array([[F.marginal(m, p) for p in st] for st in ch])
    mon.close("log-prob", lp, want, rtol=1e-8, atol=1e-8, msg=what, mask=~marg)
    if case["prior"] == "box":
        ok = (ch[..., 0] >= 0.3) & (ch[..., 0] <= 2.2) & (np.abs(ch[..., 1]) <= 1)
        # walkers can start there, but not move there
        for w in range(nw):
            for i in range(1, nrun):
                if ok[i - 1, w] and not ok[i, w]:
                    mon.violate("forbidden", "%s: walker moved to %s" % (what, ch[i, w]))
        mon.seen("forbidden", nrun * nw)
        mon.check("forbidden", np.all(~np.isfinite(lp[~ok])), "finite probability where forbidden")
    evaluated = set(calls)
    bad = 0
    nb = None
    for i in range(nrun):
        for w in range(nw):
            p = ch[i, w]
            if (float(p[0]), float(p[1])) not in evaluated:
                bad += 1
            e = m.e * u.eV
            out = F.outputs(case["form"], F.wrap(
                case["form"], (m.values(p, m.e) * u.Unit(F.D.REF[case["mkind"]])).to(case["munit"]), p))
            got = list(bl[i, w])
            nb = len(got)
            # records may be padded to keep outputs apart
            ok = len(got) in (len(out), len(out) + 1) and all(
                F.same_blob(a, c, 1e-7) for a, c in zip(got, out))
            if not ok:
                mon.violate("blobs", "%s: step %d walker %d: stored %r instead of %r"
                            % (what, i, w, got, out))
                return
            if i and np.array_equal(ch[i - 1, w], p):
                if lp[i - 1, w] != lp[i, w] and not np.isnan(lp[i, w]):
                    mon.violate("not-moved", "log-probability of an unmoved walker changed")
                mon.seen("not-moved")
    mon.seen("blobs", nrun * nw)
    mon.seen("not-moved")
    mon.check("evaluated", bad == 0, "%s: %d stored positions were never evaluated" % (what, bad),
              n=nrun * nw)
    mon.seen("evaluated", nrun * nw)
    moved = sum(not np.array_equal(ch[i - 1], ch[i]) for i in range(1, nrun))
    mon.cls("walkers moved", bool(moved))
    mon.check("metadata", s.run_info["n_walkers"] == nw and s.run_info["n_run"] == nrun
              and s.run_info["n_burn"] == case["nburn"], "run_info: %r" % (s.run_info,))


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


def near(a, b):
    """Equal within the digits that are printed"""
    with np.errstate(invalid="ignore"):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=6e-3, atol=6e-4, equal_nan=True)


def progress(mon, text, s, nrun):
    """The reports that are printed during a run, against its record"""
    ch, lp = np.asarray(s.get_chain()), np.asarray(s.get_log_prob())
    parts = re.split(r"Progress of the run:", text)[1:]
    mon.check("progress", len(parts) >= 1, "no report of the progress was printed")
    last = -1
    for t in parts:
        pc, i, n = (int(x) for x in re.search(r"(\d+) percent \((\d+) of (\d+) steps\)", t).groups())
        mon.check("progress", n == nrun and last < i < nrun and abs(pc - 100 * i / nrun) <= 1,
                  "report of %d percent, step %d of %d in a run of %d" % (pc, i, n, nrun))
        last = i
        for what, f in (("median", np.median), ("std", np.std)):
            got = [float(x) for x in re.findall(NUM, t.split("Last ensemble " + what)[1].split("\n")[0])]
            want = f(ch[i], axis=0)
            mon.check("progress", near(got, want), "%s of step %d printed as %s instead of %s" % (what, i, got, want))
        got = [float(x) for x in re.findall(r":\s*(%s)" % NUM, t.split("Last ensemble lnprob")[1].split("\n")[0])]
        with np.errstate(invalid="ignore"):
            want = [np.average(lp[i]), np.max(lp[i])]
        mon.check("progress", near(got, want), "lnprob of step %d printed as %s instead of %s" % (i, got, want))


def spoken(f, *a, **k):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        r = f(*a, **k)
    return r, o.getvalue()


def run(case, mon):
    import naima

    if not F.distinct(case):
        return mon.mark_trivial()
    m = F.Model(case)
    prior = None if case["prior"] is None else F.Prior(case["prior"])
    nw, nrun, nburn = case["nw"], case["nrun"], case["nburn"]
    mon.cls("form", case["form"])
    mon.cls("burn-in", nburn)
    mon.cls("prior", case["prior"])
    p0 = list(case["p0"])
    labels = copy.copy(case["labels"])
    t = F.tables(case)
    kw = dict(data_table=t, p0=p0, model=m, prior=prior, nwalkers=nw, nburn=nburn, guess=False,
              threads=1, labels=labels, data_sed=case["data_sed"])
    np.random.seed(case["rs"] % 2**31)
    s, pos = F.silent(naima.get_sampler, **kw)
    mon.close("metadata", s.run_info["p0"], case["p0"], rtol=1e-12, msg="p0 of the run")
    st = np.asarray(pos.coords)
    mon.close("metadata", s.run_info["p0_burn_median"], np.median(st, axis=0), rtol=1e-12,
              msg="median after the burn-in")
    mon.check("initial-ball", st.shape == (nw, len(p0)), "positions of shape %s" % (st.shape,))
    if nburn == 0:
        # relative gaussian ball of 10 per cent
        d = np.abs(st / case["p0"] - 1)
        mon.check("initial-ball", np.all(d < 0.7), "walkers far from p0", worst=d.max())
        mon.check("initial-ball", len(np.unique(st[:, 0])) == nw, "walkers start at the same point")
        if nw == 20:
            sd = (st / case["p0"] - 1).std(axis=0)
            mon.check("initial-ball", np.all((sd > 0.03) & (sd < 0.25)), "spread of the walkers", sd=sd)
    lab = list(case["labels"] or ["norm"])
    got = list(s.labels)
    # those that are missing are numbered by their position
    mon.check("metadata", got == lab + ["par%d" % i for i in range(len(lab), len(p0))],
              "labels %r from %r" % (got, case["labels"]))
    mon.check("metadata", labels == case["labels"] and p0 == case["p0"], "arguments were changed")
    (s, last), text = spoken(naima.run_sampler, sampler=s, pos=pos, nrun=nrun)
    examine(mon, case, m, s, m.calls, nrun, "first run")
    progress(mon, text, s, nrun)
    ch = np.asarray(s.get_chain()).copy()
    lp = np.asarray(s.get_log_prob()).copy()
    mon.check("final-state", np.array_equal(np.asarray(last.coords), ch[-1])
              and np.array_equal(np.asarray(last.log_prob), lp[-1]), "final state and last step differ")
    # where the run begins: every walker is where the burn-in left it, or moved
    # to a point that was evaluated
    same = np.all(ch[0] == st, axis=1)
    ev = set(m.calls)
    mon.check("continued", all(same[w] or (ch[0, w, 0], ch[0, w, 1]) in ev for w in range(nw)),
              "first step does not follow the burn-in")
    # again from the final state, after the pools etc. are gone
    s, last2 = F.silent(naima.run_sampler, sampler=s, pos=last, nrun=3)
    examine(mon, case, m, s, m.calls, 3, "second run")
    mon.seen("continued")
    if nrun < 2 or not np.any(ch[0] != ch[-1]):
        mon.mark_trivial()
    # the same in one call, from the same random state
    np.random.seed(case["rs"] % 2**31)
    m2 = F.Model(case)
    kw["model"] = m2
    s2, _ = F.silent(naima.run_sampler, nrun=nrun, **kw)
    mon.close("reproducible", np.asarray(s2.get_chain()), ch, rtol=0, msg="same random state, chain")
    mon.close("reproducible", np.asarray(s2.get_log_prob()), lp, rtol=0, msg="same random state")
    examine(mon, case, m2, s2, m2.calls, nrun, "one call")
    d = s2.data
    mon.close("metadata", val(d["energy"], "eV"), m.e, rtol=1e-9, msg="data of the sampler")
    mon.check("metadata", s2.modelfn is m2, "model of the sampler")
    mon.sample(form=case["form"], steps=nrun, walkers=nw, evaluations=len(m.calls))
