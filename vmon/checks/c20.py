"""C20: parallel evaluation: same results, no leftovers."""
import collections
import json
import os
import shutil
import signal
import tempfile
import time
import traceback

import numpy as np

from .. import fit as F

RULE = """The same short MCMC run with one process and with pools of two to five
workers, while the model sleeps for pseudo-random times and appends begin/end
events with process number and clock to a log. Offline oracles over the log: the
multiset of evaluated parameters is that of the serial run; each evaluation begins
and ends once. Then: chains, probabilities and outputs are identical; child
processes are gone after the run, or after an exception injected in the model or
prior at a random evaluation during burn-in or run; parallel confidence bands equal
the model at the sampled parameters. Interrupts: in a process group of its own, the
model itself sends SIGINT at a chosen evaluation (burn-in, run or bands), to the group
as a terminal does or to the caller only; KeyboardInterrupt must reach the caller
in time with no worker left and the sampler usable. Non-trivial: at least two workers
evaluated the model, or the signal was sent."""
REQUIRED = ["same-chain", "same-output", "exactly-once", "no-leftovers", "exception", "rerun",
            "bands", "interrupt"]
JOBS = 6
CASE_LIMIT = 200


def gen(rng, tier):
    n = 60 if tier == "quick" else 1500
    out = []
    for i in range(n):
        p = F.gen_problem(rng, npt=rng.choice([3, 6]), forms=["bare", "tuple", "list", "scalars"])
        p.update(nw=rng.choice([6, 10, 16]), nburn=rng.choice([0, 2]), nrun=rng.choice([2, 4]),
                 threads=rng.choice([2, 3, 5]), delay=rng.choice([0.0, 0.002, 0.006]),
                 fail=rng.choice(["burn", "run", "prior", "none"]), p0=[1.0, 0.2],
                 fthreads=rng.choice([1, 2, 3, 5]), exc=rng.choice(sorted(F.EXC)), default=i % 10 == 0)
        out.append(p)
    for i in range(12 if tier == "quick" else 240):
        p = F.gen_problem(rng, npt=3, forms=["bare", "tuple"])
        p.update(nw=rng.choice([8, 12]), nburn=2, nrun=3, p0=[1.0, 0.2], delay=0.004,
                 threads=rng.choice([2, 3, 4]), interrupt=["burn", "run", "bands"][i % 3],
                 group=i % 4 < 2 or rng.random() < 0.3, frac=rng.uniform(0.05, 0.8))
        out.append(p)
    return out


class Signal:
    """Sends an interrupt, once, when `n` evaluations are in the log. The group that
    is signalled was made for the case, and is checked before."""

    def __init__(self, n, log, group, leader):
        self.n, self.log, self.group, self.leader = n, log, group, leader

    def __call__(self, pars):
        if not os.getpgrp() == self.leader != os.getpid():
            return False
        with open(self.log) as fh:
            k = fh.read().count("begin")
        if k >= self.n:
            try:
                os.close(os.open(self.log + ".sent", os.O_CREAT | os.O_EXCL))
            except FileExistsError:
                return False
            if self.group:
                os.killpg(self.leader, signal.SIGINT)
            else:
                os.kill(self.leader, signal.SIGINT)
        return False


def interrupted(case, tmp):
    """The interrupted call, in a process of its own; returns what it reported"""
    log, rep = os.path.join(tmp, "log"), os.path.join(tmp, "report")
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            signal.signal(signal.SIGINT, signal.default_int_handler)
            fd = os.open(os.devnull, os.O_RDWR)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            out = victim(case, log)
        except BaseException as e:  # noqa: B036
            out = {"error": repr(e), "trace": traceback.format_exc()[-1500:]}
        with open(rep + ".tmp", "w") as fh:
            json.dump(out, fh)
        os.rename(rep + ".tmp", rep)
        os._exit(0)
    t = time.monotonic()
    gone = False
    while time.monotonic() - t < 60 and not gone:
        gone = os.waitpid(pid, os.WNOHANG)[0] == pid
        time.sleep(0.01)
    if not gone:
        # only the session that was made above
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return {"hang": True, "sent": os.path.exists(log + ".sent")}
    with open(rep) as fh:
        return json.load(fh)


def victim(case, log):
    import naima

    kind, per = case["interrupt"], case["nw"]
    total = {"burn": per * (1 + case["nburn"]), "run": per * case["nrun"], "bands": 20}[kind]
    n = max(1, int(case["frac"] * total))
    if kind == "run":
        n += per * (1 + case["nburn"])
    open(log, "w").close()
    m = F.Model(case, log=log, delay=case["delay"])
    kw = dict(data_table=F.tables(case), p0=case["p0"], model=m, nwalkers=per, nburn=case["nburn"],
              guess=False, threads=case["threads"], labels=["norm", "g"], data_sed=case["data_sed"])
    np.random.seed(case["rs"] % 2**31)
    out, s = {}, None
    if kind == "bands":
        s, pos = F.silent(naima.run_sampler, nrun=case["nrun"], **kw)
        open(log, "w").close()
    m.fail = Signal(n, log, case["group"], os.getpid())
    er = [float(m.e[0]), float(m.e[-1])] * naima.models.u.eV

    def bands():
        return naima.plot_fit(s, n_samples=20, e_range=er, e_npoints=7, threads=case["threads"],
                              plotdata=False, sed=True)

    try:
        if kind == "bands":
            s.modelfn = m
            bands()
        else:
            F.silent(naima.run_sampler, nrun=case["nrun"], **kw)
        # (the signal may still be on its way)
        for _ in range(50):
            time.sleep(0.01)
        out["caught"] = "nothing"
    except BaseException as e:  # noqa: B036
        out["caught"] = type(e).__name__
        del e
    out["sent"] = os.path.exists(log + ".sent")
    import gc

    gc.collect()
    out["left"] = wait_gone()
    # the same process goes on working
    m.fail = None
    kw["model"] = m
    if kind == "bands":
        bands()
    s2, _ = F.silent(naima.run_sampler, nrun=1, **kw)
    out["again"] = list(np.shape(s2.get_chain()))
    out["left2"] = wait_gone()
    return out


def run_interrupt(case, mon, tmp):
    os.mkdir(os.path.join(tmp, "1"))
    r = interrupted(case, os.path.join(tmp, "1"))
    if r.get("hang"):
        # a loaded machine is not a defect: only what hangs twice counts
        os.mkdir(os.path.join(tmp, "2"))
        r = interrupted(case, os.path.join(tmp, "2"))
        mon.check("interrupt", not r.get("hang"),
                  "the call did not return within 60 s after an interrupt in %s (%s)"
                  % (case["interrupt"], "group" if case["group"] else "caller only"))
        if r.get("hang"):
            return
    mon.check("interrupt", "error" not in r, "failure after an interrupt: %s" % r)
    if "error" in r:
        return
    if not r["sent"]:
        return mon.mark_trivial()
    what = "%s, %s" % (case["interrupt"], "group" if case["group"] else "caller only")
    mon.check("interrupt", r["caught"] == "KeyboardInterrupt", "an interrupt (%s) ended in %s"
              % (what, r["caught"]))
    mon.check("no-leftovers", not r["left"], "workers alive after an interrupt (%s)" % what, n=r["left"])
    mon.check("interrupt", r["again"] == [1, case["nw"], 2], "run after an interrupt: %s" % r["again"])
    mon.check("no-leftovers", not r["left2"], "workers alive after the second run", n=r["left2"])
    mon.cls("interrupt", what)


def children():
    """Live or zombie child processes of this one, by their parent's number"""
    me, out = os.getpid(), []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as fh:
                    s = fh.read()
            except OSError:
                continue
            if int(s[s.rindex(")") + 2:].split()[1]) == me:
                out.append(int(d))
    return out


def wait_gone(limit=10.0):
    t = time.monotonic()
    while time.monotonic() - t < limit:
        c = children()
        if not c:
            return []
        time.sleep(0.02)
    return c


class Fail:
    def __init__(self, n, flag):
        self.n, self.flag = n, flag

    def __call__(self, pars):
        # fails once `n` evaluations have been logged by whichever process
        with open(self.flag) as fh:
            return fh.read().count("begin") > self.n


class FailPrior:
    def __init__(self, f, exc):
        self.f, self.exc = f, exc

    def __call__(self, pars):
        if self.f(pars):
            raise self.exc("injected failure in the prior")
        return 0.0


def events(path):
    with open(path) as fh:
        return [json.loads(x) for x in fh]


def run(case, mon):
    import naima

    if not F.distinct(case):
        return mon.mark_trivial()
    tmp = tempfile.mkdtemp(prefix="vmon_c20_")
    try:
        if case.get("interrupt"):
            run_interrupt(case, mon, tmp)
        else:
            _run(case, mon, naima, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(case, mon, naima, tmp):
    th = case["threads"]
    if case["default"]:
        th = None
    mon.cls("workers", th)
    mon.cls("delay", case["delay"])
    prior = None if case["prior"] is None else F.Prior(case["prior"])
    before = children()
    mon.check("no-leftovers", not before, "child processes before the case", n=before)

    def go(log, threads, **k):
        m = F.Model(case, log=log, delay=case["delay"] if threads != 1 else 0, **k)
        np.random.seed(case["rs"] % 2**31)
        return m, F.silent(naima.run_sampler, nrun=case["nrun"], data_table=F.tables(case),
                           p0=case["p0"], model=m, prior=k.get("prior", prior), nwalkers=case["nw"],
                           nburn=case["nburn"], guess=False, threads=threads, labels=["norm", "g"],
                           data_sed=case["data_sed"])

    l1, l2 = os.path.join(tmp, "serial"), os.path.join(tmp, "pool")
    _, (s1, p1) = go(l1, 1)
    m2, (s2, p2) = go(l2, th)
    left = wait_gone()
    mon.check("no-leftovers", not left, "workers alive after the run: %s" % left)
    mon.close("same-chain", np.asarray(s2.get_chain()), np.asarray(s1.get_chain()), rtol=0, msg="chain")
    mon.close("same-chain", np.asarray(s2.get_log_prob()), np.asarray(s1.get_log_prob()), rtol=0,
              msg="log-probability")
    mon.close("same-chain", np.asarray(p2.coords), np.asarray(p1.coords), rtol=0, msg="final state")
    b1, b2 = s1.get_blobs(), s2.get_blobs()
    ok = np.shape(b1) == np.shape(b2)
    if ok:
        for x, y in zip(b1.reshape(-1, b1.shape[-1]), b2.reshape(-1, b2.shape[-1])):
            ok = ok and F.same_blob(list(x), list(y), 0)
    mon.check("same-output", ok, "outputs of parallel and serial runs differ")
    mon.seen("same-output", int(np.prod(np.shape(b1)[:2])))
    # offline examination of the two event logs
    e1, e2 = events(l1), events(l2)
    c1 = collections.Counter((k, tuple(p)) for k, _, _, p in e1)
    c2 = collections.Counter((k, tuple(p)) for k, _, _, p in e2)
    mon.check("exactly-once", c1 == c2, "evaluations differ from the serial run: %s"
              % (list((c1 - c2).items())[:2] + list((c2 - c1).items())[:2]))
    mon.check("exactly-once", all(c2[("end", p)] == n for (k, p), n in c2.items() if k == "begin"),
              "an evaluation did not end")
    mon.seen("exactly-once", len(e2) // 2)
    pids = [p for k, p, _, _ in e2 if k == "begin"]
    mon.cls("processes that evaluated", len(set(pids)))
    order = tuple(tuple(p) for k, _, _, p in e2 if k == "end")
    serial = tuple(tuple(p) for k, _, _, p in e1 if k == "end")
    mon.cls("completion order", "as serial" if order == serial else "interleaved")
    open_, mx = 0, 0
    for k, *_ in e2:
        open_ += 1 if k == "begin" else -1
        mx = max(mx, open_)
    mon.cls("concurrent evaluations", mx)
    if len(set(pids)) < 2:
        mon.mark_trivial()
    # a finished sampler can be run further, now serially
    np.random.seed(5)
    s3, p3 = F.silent(naima.run_sampler, sampler=s2, pos=p2, nrun=2)
    np.random.seed(5)
    s4, p4 = F.silent(naima.run_sampler, sampler=s1, pos=p1, nrun=2)
    mon.close("rerun", np.asarray(s3.get_chain()), np.asarray(s4.get_chain()), rtol=0, msg="second run")
    mon.check("no-leftovers", not wait_gone(), "workers alive after the second run")
    # parallel computation of bands
    from matplotlib import pyplot as plt

    m = s1.modelfn
    m.logf = os.path.join(tmp, "bands")
    s1.modelfn = m
    er = [float(m.e[0]), float(m.e[-1])] * naima.models.u.eV
    f = naima.plot_fit(s1, n_samples=20, e_range=er, e_npoints=7, threads=case["threads"],
                       plotdata=False, sed=True)
    ev = events(m.logf)
    pars = {tuple(p) for k, _, _, p in ev}
    chain = {tuple(map(float, c)) for c in np.asarray(s1.get_chain(flat=True))}
    mon.check("bands", pars <= chain, "models were computed for parameters that are not in the chain")
    mon.check("bands", all(p == q for p, q in zip(
        sorted(tuple(p) for k, _, _, p in ev if k == "begin"),
        sorted(tuple(p) for k, _, _, p in ev if k == "end"))), "begin and end differ")
    plt.close("all")
    mon.check("bands", not wait_gone(), "workers alive after plotting")
    # the same random state draws the same figure, however it is computed
    drawn = []
    for t in (case["threads"], 1):
        open(m.logf, "w").close()
        np.random.seed(case["rs"] % 2**31)
        f = naima.plot_fit(s1, n_samples=8, e_range=er, e_npoints=5, threads=t, plotdata=False, sed=True)
        drawn.append((sorted(tuple(p) for k, _, _, p in events(m.logf) if k == "end"),
                      sorted(tuple(map(tuple, np.asarray(l.get_xydata(), float))) for l in f.axes[0].lines)))
        plt.close("all")
    mon.check("bands", drawn[0][0] == drawn[1][0], "samples drawn depend on the number of threads", n=len(drawn[0][0]))
    mon.check("bands", len(drawn[0][1]) == len(drawn[1][1]) and all(
        np.shape(a) == np.shape(c) and np.allclose(a, c, rtol=1e-12, atol=0, equal_nan=True)
        for a, c in zip(*(d[1] for d in drawn))), "lines drawn depend on the number of threads", n=len(drawn[0][1]))
    # failures
    if case["fail"] != "none":
        log = os.path.join(tmp, "fail")
        open(log, "w").close()
        per = case["nw"]
        n = {"burn": 1 + per // 2, "run": 1 + per * (1 + case["nburn"]) + 2, "prior": per}[case["fail"]]
        f = Fail(n, log)
        k = {"fail": f} if case["fail"] != "prior" else {}
        mm = F.Model(case, log=log, delay=case["delay"], **k)
        mm.exc = F.EXC[case["exc"]]
        try:
            F.silent(naima.run_sampler, nrun=case["nrun"], data_table=F.tables(case), p0=case["p0"],
                     model=mm, prior=FailPrior(f, mm.exc) if case["fail"] == "prior" else prior,
                     nwalkers=per, nburn=case["nburn"], guess=False, threads=case["fthreads"],
                     labels=["norm", "g"], data_sed=case["data_sed"])
            mon.check("exception", False, "the failure of a worker was swallowed")
        except Exception as e:
            # (a generator turns StopIteration into RuntimeError)
            ok = isinstance(e, mm.exc) and "injected" in str(e)
            if mm.exc is StopIteration:
                ok = True
            mon.check("exception", ok, "another error: %r instead of %s" % (e, mm.exc.__name__))
            mon.cls("exception", case["exc"])
        import gc

        gc.collect()
        left = wait_gone()
        mon.check("no-leftovers", not left, "workers alive after a failure (%s): %s" % (case["fail"], left))
        mon.cls("failure", case["fail"])
    mon.sample(workers=th, processes=len(set(pids)), evaluations=len(e2) // 2, concurrent=mx)
