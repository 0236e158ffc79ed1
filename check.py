#!/usr/bin/env python3
"""Decide one property:  check.py <id> [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    # sets are gone through in the same order in every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(50000)

from vfa.rulelib import Check, Limit  # noqa: E402


def known_findings(pid):
    """Open findings of this property: key of the violation -> what fails."""
    out = {}
    with open(os.path.join(HERE, "KNOWN_FINDINGS")) as fh:
        for line in fh:
            if line.startswith("open: property=%s key=" % pid):
                key, what = line.split(" key=", 1)[1].split(" :: ", 1)
                out[key] = what.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = Check(pid, tier, seed)
    mod = importlib.import_module("vfa.rules." + pid.lower())
    try:
        mod.run(c)
    except Limit as e:
        # what was not looked at is not known to hold
        c.violate(("limit",), "the rule could not be established: %s" % e)
    except Exception as e:
        # the same when the source has a shape that the rule does not understand
        traceback.print_exc()
        c.violate(("shape",), "the rule could not be established: %s: %s" % (type(e).__name__, e))
    known = known_findings(pid)
    ev_dir = os.environ.get("VFA_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(ev_dir, exist_ok=True)
    new = [v for k, v in c.violations.items() if k not in known]
    for k, v in c.violations.items():
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    replay = os.path.join(ev_dir, pid + ".violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": c.coverage(),
        "assumptions": c.assumptions,
        "violations": [v.key for v in new],
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(ev_dir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("%s: %d obligations, %d violations, %.1f s" % (pid, c.obligations, len(new), time.time() - t0))
    if new:
        with open(replay, "w") as fh:
            json.dump(
                [{"key": v.key, "message": v.msg, "where": v.where, "trace": v.trace} for v in new], fh, indent=1
            )
            fh.write("\n")
        for v in new:
            w = v.where or {}
            print("  %s" % v.msg)
            if w:
                print("    at %s:%s in %s" % (w.get("file"), w.get("line"), w.get("function")))
            for l in v.trace[-14:]:
                print("      " + l)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
