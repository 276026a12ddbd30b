"""Run one check: generate cases, execute them in worker processes, merge what
the monitors observed, write the evidence, decide.

Exit 0: held on everything explored.  Exit 1: violation (VIOLATION line).
Exit 2: inconclusive (harness error, watchdog, or a deciding monitor that was
never reached)."""
import argparse
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


def known_findings(prop):
    """Mechanism keys of the recorded (unrepaired) findings of a property."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("finding: "):
                    head, _, text = line[len("finding: "):].partition(" :: ")
                    f = dict(x.split("=", 1) for x in head.split())
                    if f.get("property") == prop:
                        out[f["key"]] = text
    return out


def run_cases(check, cases, mon, limit):
    """Execute cases in this process. Returns harness errors."""
    from vmon.core import ObservationError
    from vmon.load import in_repo

    errors = []

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    for case in cases:
        mon.begin(case)
        signal.alarm(limit)
        try:
            check.run(case, mon)
        except CaseTimeout:
            errors.append("watchdog: case took more than %d s: %s" % (limit, case))
        except ObservationError as exc:
            mon.check("observable", False, str(exc))
        except (MemoryError, OSError, ImportError) as exc:
            where = in_repo(exc.__traceback__)
            if where and not isinstance(exc, MemoryError):
                mon.check(
                    "no-unexpected-exception",
                    False,
                    "{0} at {1}: {2}".format(type(exc).__name__, where, exc),
                    trace=traceback.format_exc()[-1500:],
                )
            else:
                errors.append(traceback.format_exc())
        except Exception as exc:
            where = in_repo(exc.__traceback__)
            # The cases are deterministic and run cleanly on the reference
            # tree; an exception means that the code under test failed on
            # valid input, or returned something that cannot be examined.
            mon.check(
                "no-unexpected-exception",
                False,
                "{0} at {1}: {2}".format(
                    type(exc).__name__, where or "observation", exc
                ),
                trace=traceback.format_exc()[-1800:],
            )
        finally:
            signal.alarm(0)
        mon.end()
    return errors


def merge(dst, src):
    for k, n in src["rules"].items():
        dst["rules"][k] = dst["rules"].get(k, 0) + n
    for d, m in src["classes"].items():
        t = dst["classes"].setdefault(d, {})
        for k, n in m.items():
            t[k] = t.get(k, 0) + n
    dst["violations"] += src["violations"]
    dst["nviol"] += src["nviol"]
    dst["samples"] += src["samples"]
    dst["nontrivial"] |= set(src["nontrivial"])
    dst["trivial"] += src["trivial"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int, default=0, help="first N cases only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.check
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()

    sys.path.insert(0, HERE)
    from vmon import load
    from vmon.core import Mon, jsonable

    try:
        load.load()
    except Exception:
        # a tree that does not even import is not a verdict
        traceback.print_exc()
        print("INCONCLUSIVE property=%s: naima cannot be imported" % prop)
        return 2
    check = importlib.import_module("vmon.checks." + prop.lower())
    rng = random.Random("%s/%d/%s" % (prop, a.seed, tier))
    if a.replay:
        with open(a.replay) as fh:
            cases = [json.load(fh)["case"]]
    else:
        cases = json.loads(json.dumps(check.gen(rng, tier)))
        if a.limit:
            cases = cases[: a.limit]
    limit = getattr(check, "CASE_LIMIT", 240)
    budget = getattr(check, "BUDGET", 780 if tier == "quick" else 3 * 3600)
    jobs = a.jobs or min(
        getattr(check, "JOBS", 8), os.cpu_count() or 1, max(1, len(cases))
    )

    tot = dict(
        rules={}, classes={}, violations=[], nviol=0, samples=[],
        nontrivial=set(), trivial=0,
    )
    errors = []
    # an interleaved partition, so that every worker sees every kind of case
    shards = [cases[i::jobs] for i in range(jobs)]
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for shard in shards:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                if not a.v:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    err = os.dup(2)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                load.quiet()
                mon = Mon()
                if hasattr(check, "setup"):
                    check.setup()
                errs = run_cases(check, shard, mon, limit)
                if hasattr(check, "finish"):
                    check.finish(mon)
                out = dict(mon.dump(), errors=errs)
                with os.fdopen(w, "w") as fh:
                    json.dump(jsonable_deep(out), fh)
            except BaseException:
                sys.stderr.flush()
                if not a.v:
                    os.dup2(err, 2)
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    deadline = t0 + budget
    import selectors

    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in procs:
        os.set_blocking(r, False)
        sel.register(r, selectors.EVENT_READ, pid)
        bufs[r] = []
    open_fds = {r for _, r in procs}
    while open_fds and time.time() < deadline:
        for key, _ in sel.select(timeout=1.0):
            chunk = os.read(key.fd, 1 << 20)
            if chunk:
                bufs[key.fd].append(chunk)
            else:
                sel.unregister(key.fd)
                os.close(key.fd)
                open_fds.discard(key.fd)
    for pid, r in procs:
        if r in open_fds:
            errors.append("watchdog: worker %d exceeded the budget" % pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
        raw = b"".join(bufs[r])
        try:
            res = json.loads(raw)
        except ValueError:
            errors.append("worker %d gave no result" % pid)
            continue
        errors += res.pop("errors")
        merge(tot, res)

    required = getattr(check, "REQUIRED", [])
    missing = [r for r in required if not tot["rules"].get(r)] if not a.replay else []

    # known findings are keyed by mechanism: rule name or rule:tag
    known = known_findings(prop)
    fresh, listed = [], {}
    for v in tot["violations"]:
        key = v["detail"].get("key") if isinstance(v["detail"], dict) else None
        if key and key in known:
            listed[key] = known[key]
        else:
            fresh.append(v)

    wall = time.time() - t0
    evidence = dict(
        property=prop,
        tier=tier,
        seed=a.seed,
        level=getattr(check, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=len(cases),
            distinct_nontrivial=len(tot["nontrivial"]),
            rule=" ".join(check.RULE.split()),
            samples=(tot["samples"] or [])[:6] + [jsonable(c) for c in cases[:3]],
            observations=sum(tot["rules"].values()),
            observations_per_rule=dict(sorted(tot["rules"].items())),
            classes={d: dict(sorted(m.items())[:60]) for d, m in sorted(tot["classes"].items())},
            trivial_cases=tot["trivial"],
            workers=jobs,
        ),
        wall_s=round(wall, 2),
        violations=[
            dict(rule=v["rule"], msg=v["msg"]) for v in fresh[:10]
        ],
        harness_errors=[e[-600:] for e in errors[:5]],
        known_findings=sorted(listed),
    )
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as fh:
            json.dump(evidence, fh, indent=1, default=str)
            fh.write("\n")
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    print(
        "%s tier=%s seed=%d cases=%d nontrivial=%d observations=%d wall=%.1fs"
        % (prop, tier, a.seed, len(cases), len(tot["nontrivial"]),
           sum(tot["rules"].values()), wall)
    )
    for k, n in sorted(tot["rules"].items()):
        print("  observed %-40s %d" % (k, n))
    for k, text in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for e in errors[:5]:
        print("HARNESS-ERROR " + e[-1500:])
    if fresh:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        byrule = {}
        for v in fresh:
            byrule.setdefault(v["rule"], v)
        for i, (rule, v) in enumerate(sorted(byrule.items())):
            path = os.path.join(rdir, "%s_%d.json" % (prop, i))
            if not a.replay:
                with open(path, "w") as fh:
                    json.dump(
                        dict(property=prop, rule=rule, msg=v["msg"], seed=a.seed,
                             tier=tier, detail=v["detail"], case=v["case"]),
                        fh, indent=1, default=str,
                    )
            print("  violated [%s] %s" % (rule, v["msg"]))
            if a.v and isinstance(v["detail"], dict) and v["detail"].get("trace"):
                print(v["detail"]["trace"])
        for i in range(len(byrule)):
            path = a.replay or os.path.join(rdir, "%s_%d.json" % (prop, i))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("INCONCLUSIVE property=%s: harness errors" % prop)
        return 2
    if missing:
        print("INCONCLUSIVE property=%s: never observed: %s" % (prop, missing))
        return 2
    if not tot["rules"]:
        print("INCONCLUSIVE property=%s: nothing observed" % prop)
        return 2
    return 0


def jsonable_deep(x):
    if isinstance(x, dict):
        return {str(k): jsonable_deep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable_deep(v) for v in x]
    if isinstance(x, (bool, int, str, float)) or x is None:
        return x
    return str(x)


if __name__ == "__main__":
    sys.exit(main())
