#!/usr/bin/env python3
"""check.py PROPERTY: decides one property from /repo's current source.
exit 0: every obligation is discharged (known findings are printed); exit 1: VIOLATION; exit 2: could not analyse."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from check_base import Report, Missing
from interp import Unsupported, NeedSplit
import registry

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: "):
                head, _, what = l[len("finding: "):].partition(" | ")
                d = dict(x.split("=", 1) for x in head.split())
                out[(d["property"], d["key"])] = what
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    info = registry.PROPS[prop]
    rep = Report(prop)
    try:
        ctx = info["context"]()
        try:
            info["spec"](ctx, rep)
        except Missing as e:
            rep.ob(prop + ":anchor", False, "the construct the property is about exists", "", "not found: %s" % e)
        except (Unsupported, NeedSplit) as e:
            rep.ob(prop + ":analysed", False, "the code is within what the analysis can follow", "", "not established: %s %s" % (type(e).__name__, e))
        except RecursionError as e:
            rep.ob(prop + ":analysed", False, "the code is within what the analysis can follow", "", "not established: recursion")
        floor = info["floor"]
        if len(rep.obs) < floor and all((prop, o["key"]) in known_findings() for o in rep.failed):
            rep.ob(prop + ":floor", False, "at least %d obligations" % floor, "", "only %d obligations were generated" % len(rep.obs))
    except build.BuildError as e:
        print("ERROR: cannot build the analysed program:\n%s" % e)
        return 2
    except Exception as e:
        if type(e).__name__ == "BuildFailure":
            print("ERROR: %s" % e)
            return 2
        traceback.print_exc()
        rep.ob(prop + ":analysed", False, "the code is within what the analysis can follow", "", "not established: internal error %r" % e)
    known = known_findings()
    new, old = [], []
    for o in rep.failed:
        (old if (prop, o["key"]) in known else new).append(o)
    E = getattr(ctx, "E", None) if "ctx" in locals() else None
    cov = {
        "obligations": len(rep.obs),
        "discharged": len(rep.obs) - len(rep.failed),
        "checker_cmd": "python3 engine/check.py " + prop,
        "trusted_base": info["trusted"],
        "rule": info["rule"],
        "samples": [{"obligation": o["key"], "at": o["where"], "claim": o["desc"], "result": ("discharged: " if o["ok"] else "FAILED: ") + o["detail"][:400]} for o in rep.obs[:6]],
        "known_findings": [o["key"] for o in old],
    }
    if E is not None:
        cov["functions_analysed"] = len(E.visited_bodies)
        cov["functions_in_program"] = len(E.bodies)
        cov["call_sites_interpreted"] = E.calls_seen
        cov["loops_summarised"] = E.loops_summarised
        cov["opaque_callees"] = sorted(E.unmodelled)[:60]
    cov.update(rep.analysed)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": info["level"], "coverage": cov, "assumptions": info["assumptions"],
               "wall_s": round(time.time() - t0, 3), "violations": len(new)}, open(ev, "w"), indent=1)
    print("%s: %d obligations, %d discharged, %.1fs" % (prop, len(rep.obs), len(rep.obs) - len(rep.failed), time.time() - t0))
    for o in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o["key"], known[(prop, o["key"])]))
    if new:
        rp = os.path.join("evidence", prop + ".violation.txt")
        with open(os.path.join(VERIF, rp), "w") as f:
            for o in new:
                f.write("%s\n  at: %s\n  rule: %s\n  found: %s\n\n" % (o["key"], o["where"], o["desc"], o["detail"]))
        for o in new[:8]:
            print("  %s\n    at %s\n    rule: %s\n    found: %s" % (o["key"], o["where"], o["desc"], o["detail"][:1500]))
        if len(new) > 8:
            print("  ... and %d more" % (len(new) - 8))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
