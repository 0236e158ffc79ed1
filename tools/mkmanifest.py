#!/usr/bin/env python3
"""Write MANIFEST.json from the rules that exist and the property list."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NOT_APPLICABLE = {
    "C29": "The plugin is written in TypeScript against the API of VS Code. Neither its type declarations nor the plugin's other dependencies (the JSON-RPC library and the mutex that serialises its handlers) are installed, so calls into them cannot be resolved, and what a handler may run concurrently with depends on them. The build does not compile the plugin either, so nothing would show that a changed plugin is still a program. The same protocol is decided for the Neovim plugin (C28) and for the daemon's side (C19, C41).",
    "C40": "Convergence of replicas is a property of Automerge's merge function over all histories. "
    "Deciding it means executing or proving the CRDT; an inspection of this repository's source only sees calls into it. "
    "What this repository contributes (every change announced, synced, applied) is C05, C06 and C07.",
    "C41": "That transformed operations lead both sides to the same text is an algebraic law of the operational-transform library "
    "over all operation pairs. It needs execution or a proof of arithmetic over operation sequences, which no dataflow or typestate rule decides. "
    "The bookkeeping around it is C19.",
    "C42": "Exactness of the computed text difference is a functional law of the dissimilar library and of the conversions between delta types, "
    "over all pairs of texts. Deciding it needs execution or a proof. That the units and the direction are right is C21 and C22.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "vfa", "rules", pid.lower() + ".py")):
            m = importlib.import_module("vfa.rules." + pid.lower())
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": "python3 check.py " + pid,
                    "thorough_cmd": "python3 check.py " + pid,
                    "technique": m.TECHNIQUE,
                    "level": "other",
                    "level_note": m.NOTE,
                    "evidence_file": "evidence/%s.json" % pid,
                }
            )
        else:
            na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "No check has been built for this property yet.")})
    out = {
        "version": 1,
        "setup_cmd": "python3 -m vfa.extract",
        "checks": checks,
        "not_applicable": na,
        "hooks": {"guard": "none", "enable": "none", "source_commits": []},
        "notes": "Every check is static: it compiles /repo's current tree with a compiler driver that writes out MIR and types, "
        "and decides by data-flow rules over them. C28 parses the Neovim plugin's source instead. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")


main()
