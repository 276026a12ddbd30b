"""C17: the likelihood of a model given the data."""
import numpy as np
from astropy import units as u

from .. import fit as F
from ..core import val

RULE = """Random data (one to three tables, in any mixture of units, forms, with
asymmetric uncertainties and upper limits at their own confidence levels) and
models whose values at every point are known by construction, returned in other
units, as SED or differential spectrum, alone or with extra outputs, with and
without priors. The log-probability the sampler computes for random parameters,
inside and outside of the prior, is compared with an independent implementation
of the documented likelihood, also in turn with
samplers of other models and data. Non-trivial: some finite log-probability."""
REQUIRED = ["log-probability", "forbidden", "upper-limits", "no-prior", "order", "data-seen", "in-turn"]


def gen(rng, tier):
    n = 500 if tier == "quick" else 25000
    return [F.gen_problem(rng, uls=rng.choice([None, "some"])) for _ in range(n)]


def run(case, mon):
    import naima

    if not F.distinct(case):
        return mon.mark_trivial()
    rng = np.random.RandomState(case["rs"])
    m = F.Model(case)
    prior = None if case["prior"] is None else F.Prior(case["prior"])
    nd = len(m.e)
    mon.cls("form", case["form"])
    mon.cls("model/data", "%s / %s" % (case["mkind"], m.kind))
    mon.cls("prior", case["prior"])
    mon.cls("upper limits", int(m.rows["ul"].sum()))
    seen = []

    def model(p, data):
        seen.append(data)
        return m(p, data)

    s, _ = F.silent(naima.get_sampler, data_table=F.tables(case), p0=[1.0, 0.1], model=model,
                    prior=prior, nwalkers=4, nburn=0, guess=False, threads=1, labels=["a", "b"],
                    data_sed=case["data_sed"])
    co = np.column_stack([10 ** rng.uniform(-0.8, 0.8, 12), rng.uniform(-1.5, 1.5, 12)])
    co[0] = [1.0, 0.0]
    co[1] = [1e-3, 0.0]
    co[2] = [1e3, 0.0]
    co = np.array([c for c in co if not F.marginal(m, c)])
    got = np.array(s.compute_log_prob(co)[0], float)
    want = np.array([F.ref_lnprob(m, c) for c in co])
    fin = np.isfinite(want)
    if not fin.any():
        mon.mark_trivial()
    rule = "no-prior" if case["prior"] is None else "log-probability"
    mon.close(rule, got[fin], want[fin], rtol=1e-8, atol=1e-8, msg="log-probability")
    mon.check("forbidden", np.all(got[~fin] == -np.inf), "forbidden by the prior, but allowed",
              got=got[~fin])
    if m.rows["ul"].any():
        # an upper limit does not care how much it is fulfilled or violated by
        mon.seen("upper-limits")
        if m.rows["ul"].all():
            if fin.any() and co[fin, 0].min() < 0.01:
                k = int(np.argmin(co[fin, 0]))
                mon.close("upper-limits", got[fin][k], F.ref_prior(case["prior"], co[fin][k]),
                          atol=1e-9, msg="only upper limits, all fulfilled")
    # one at a time, any order, and repeated
    p = rng.permutation(len(co))
    mon.close("order", np.array(s.compute_log_prob(co[p])[0], float), got[p], rtol=0,
              msg="order of evaluation")
    one = np.array([float(s.compute_log_prob(c[None])[0][0]) for c in co[:3]])
    mon.close("order", one, got[:3], rtol=0, msg="one at a time")
    # in turn with samplers of another model, and of other data
    m2 = F.Model(case)
    m2.scale = 2.0

    def twice():
        def model(p, data):
            return m2(p, data)

        return model

    kw = dict(p0=[1.0, 0.1], model=twice(), prior=prior, nwalkers=4, nburn=0, guess=False, threads=1,
              labels=["a", "b"], data_sed=case["data_sed"])
    s2, _ = F.silent(naima.get_sampler, data_table=F.tables(case), **kw)
    t3 = F.tables(case)
    for t in t3 if isinstance(t3, list) else [t3]:
        for col in t.colnames:
            if col.startswith("flux"):
                t[col] = t[col] * 2
    s3, _ = F.silent(naima.get_sampler, data_table=t3, **kw)
    for c in co[:6]:
        w, w2 = F.ref_lnprob(m, c), F.ref_lnprob(m2, c)
        if not np.isfinite(w) or F.marginal(m2, c):
            continue
        g = [float(x.compute_log_prob(c[None])[0][0]) for x in (s, s2, s3, s)]
        mon.close("in-turn", g, [w, w2, w, w], rtol=1e-8, atol=1e-8,
                  msg="log-probability for a model, twice the model, twice model and data, the first model")
    # the model is given the data, in the normal form
    d = seen[-1]
    mon.close("data-seen", val(d["energy"], "eV", (nd,)), m.e, rtol=1e-9, msg="energies given to the model")
    mon.check("data-seen", all(len(x["energy"]) == nd for x in seen), "data given to the model")
    mon.sample(points=nd, ul=int(m.rows["ul"].sum()), lnprob=got[:4], reference=want[:4])
