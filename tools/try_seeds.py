#!/usr/bin/env python3
"""try_seeds.py [--checks-only] [ID...]: confirms the planted changes and shows which checks report them. Applies each to /repo and undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
only = "--checks-only" in sys.argv
every = "--all-checks" in sys.argv
man = json.load(open(os.path.join(V, "MANIFEST.json")))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, cwd="/repo", t=900):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


for i in sorted(args or os.listdir(S)):
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    line = [i, meta["property"]]
    assert not run(["git", "status", "--porcelain", "-uno"])[1], "repo not clean"
    if not only:
        rc, o = run(["bash", d + "/demo.sh"])
        line.append("clean-demo=%d" % rc + ("" if rc == 0 else "\n" + o[-1500:]))
    rc, o = run(["git", "apply", d + "/patch.diff"])
    assert rc == 0, o
    try:
        if not only:
            rc, o = run(["bash", "/opt/vp/build.sh"])
            line.append("build=%d" % rc + ("" if rc == 0 else "\n" + o[-2500:]))
            run(["bash", "/opt/vp/test.sh", "/tmp/ts.json"])
            r = json.load(open("/tmp/ts.json"))
            bad = stable - set(r.get("passed", r if isinstance(r, list) else []))
            line.append("tests-lost=%d" % len(bad))
            rc, o = run(["bash", d + "/demo.sh"])
            line.append("bug-demo=%d" % rc)
            if rc == 3:
                line.append(o[-1500:])
        hits = []
        for c in man["checks"]:
            if not every and c["property"] != meta["property"]:
                continue
            rc, o = run(c["quick_cmd"].split(), V)
            if rc == 1 and "VIOLATION property=%s " % c["property"] in o:
                hits.append(c["property"])
                if c["property"] == meta["property"]:
                    why = [l for l in o.splitlines() if l.startswith(("  ", "    found"))][:4]
                    line.append("\n   " + "\n   ".join(x[:230] for x in why))
            elif rc:
                hits.append("%s:rc%d" % (c["property"], rc))
        line.append("\n   reported-by=%s" % ",".join(hits) + ("" if meta["property"] in hits else "  **MISSED**"))
    finally:
        run(["git", "checkout", "--", "."])
    print(*line, flush=True)
