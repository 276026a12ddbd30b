"""Confirm a planted bug and file it under seeded/.

usage: plant.py BUGS.py [ID ...]
BUGS.py holds BUGS = {id: dict(property, needs, what_it_breaks, edits=[(file, old, new)], demo)}.
Each is applied to a scratch copy of /repo; the build's parse, the stable tests and the
demonstration (with and without the change) must agree with what is asked of it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

BASE = "532be04"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME="/root")
DEMO = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work" && timeout 280 "$py" -B "$here/demo.py"
"""


def sh(cmd, cwd="/", env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def plant(i, b):
    w = "/tmp/w/" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/w", exist_ok=True)
    sh(["cp", "-a", "/repo", w])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, "src/naima", f)
            s = open(p).read()
            if s.count(old) != 1:
                return i, "edit of %s matches %d times: %s" % (f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], w).stdout
        # the changed lines are of the original repository
        orig = 0
        for f in {e[0] for e in b["edits"]}:
            rel = "src/naima/" + f
            bl = sh(["git", "blame", "-s", BASE + "..HEAD", "--", rel], w).stdout.splitlines()
            cur = None
            for ln in sh(["git", "diff", "-U0", "--", rel], w).stdout.splitlines():
                if ln.startswith("@@"):
                    a = ln.split()[1][1:].split(",")
                    n = int(a[1]) if len(a) > 1 else 1
                    for k in range(int(a[0]), int(a[0]) + n):
                        if bl[k - 1].startswith("^"):
                            orig += 1
                        else:
                            return i, "changes a line of a fix: " + bl[k - 1][:120]
        if not orig:
            return i, "changes no line of the original repository"
        env = dict(ENV, PYTHONPATH=w + "/src")
        d = os.path.join("/tmp/w", i + ".seed")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        os.chmod(d + "/demo.sh", 0o755)
        c0 = sh(["bash", d + "/demo.sh"], "/repo")
        if c0.returncode:
            return i, "demo fails on the unchanged tree: " + (c0.stdout + c0.stderr)[-600:]
        c1 = sh(["bash", d + "/demo.sh"], w, env)
        if not c1.returncode:
            return i, "demo passes with the change: " + (c1.stdout + c1.stderr)[-300:]
        os.makedirs(w + "/cwd")
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + w,
                "--timeout=300", "-p", "no:xdist", "--randomly-seed=1", "--randomly-dont-reorganize",
                "-o", "junit_family=xunit2", "--junitxml=" + w + "/junit.xml", w + "/tests"],
               w + "/cwd", env)
        sh(["/usr/bin/python3", "/opt/vp/results.py", w + "/out.json", "junit:" + w + "/junit.xml"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open(w + "/out.json"))
        key = next(k for k in ("stable", "passed", "pass", "tests") if k in base)
        ok = next(k for k in ("passed", "pass", "stable", "tests") if k in out)
        miss = set(base[key]) - set(out[ok])
        if miss:
            return i, "existing tests see it: %s" % sorted(miss)[:3]
        dst = os.path.join(ROOT, "seeded", i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return i, "ok: " + ((c1.stdout + c1.stderr).strip().splitlines() or ["silent"])[-1][:150]
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree("/tmp/w/" + i + ".seed", ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", 7))) as ex:
        for i, r in ex.map(lambda i: plant(i, bugs[i]), ids):
            print(i, "|", r, flush=True)
