"""Write properties.jsonl and MANIFEST.json, and the per-property part of
DESIGN.md (between the markers), from props.py."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE  # noqa: E402

COMMON = (
    "Exploration of seeded random executions of the code in /repo/src; "
    "an exit of 0 says that no monitor fired, not that none could. "
)


def rule_of(pid):
    src = open(os.path.join(HERE, "vmon/checks", pid.lower() + ".py")).read()
    m = re.search(r'^RULE = """(.*?)"""', src, re.S | re.M)
    q = re.search(r"^REQUIRED = \[(.*?)\]", src, re.S | re.M)
    return " ".join(m.group(1).split()), re.findall(r'"([^"]+)"', q.group(1))


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS + NOT_APPLICABLE:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            n = len(re.findall(r"[.](?: |$)", p["statement"].replace("et al. ", "et al ")))
            assert n <= 3, (p["id"], n)
            fh.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                    observe_at=p["observe"], hook_needed=None,
                ),
            )) + "\n")
    checks = []
    for p in PROPS:
        pid = p["id"]
        assert os.path.exists(os.path.join(HERE, "vmon/checks", pid.lower() + ".py")), pid
        checks.append(dict(
            property=pid,
            quick_cmd="bin/check %s --tier quick" % pid,
            thorough_cmd="bin/check %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique="runtime monitoring: " + p["technique"],
            level="exploration",
            level_note=COMMON + p["note"],
        ))
    man = dict(
        version=1,
        setup_cmd="bin/setup",
        checks=checks,
        not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NOT_APPLICABLE],
        notes="No hooks in /repo: all monitors observe public behaviour from /verif/vmon. "
        "Inputs of every check come from VERIF_SEED.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    out = []
    for p in PROPS:
        rule, req = rule_of(p["id"])
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("%s\n" % p["statement"])
        out.append("- Decided by: %s." % p["technique"])
        out.append("- Workload and oracles: %s" % rule)
        out.append("- Details: %s" % p["design"])
        out.append("- Bounds and trust: %s" % p["note"])
        out.append("- Why tests cannot: %s" % p["why"])
        out.append("- Monitors that must have fired: %s.\n" % ", ".join(req))
    for p in NOT_APPLICABLE:
        out.append("### %s %s (not applicable)\n" % (p["id"], p["title"]))
        out.append("%s\n\n- Reason: %s\n" % (p["statement"], p["reason"]))
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    a, b = "<!-- properties begin -->\n", "<!-- properties end -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    with open(path, "w") as fh:
        fh.write(s[:i] + "\n".join(out) + s[j:])


main()
