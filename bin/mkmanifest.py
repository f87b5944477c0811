#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
def note(P):
    n = ["Every recorded history of the real code, made by the seeded drivers of the harness, is decided by TLC against %s."
         % ", ".join(specs(P))]
    if P.get("scripts"):
        n.append("%s, a small model of it, is explored exhaustively for its invariants, and a seeded sample (thorough: all or "
                 "most) of its behaviours is replayed into the real code and its answers validated." % ", ".join(P["scripts"]))
    if P.get("models"):
        n.append("How the code does it is modelled and checked exhaustively (%s); the ways it must not are refuted (%s)."
                 % (", ".join(m[1] for m in P["models"]), ", ".join(m[1] for m in P.get("refuted", []))))
    n.append("Assurance is over the histories recorded and the bounds of the models; trusts TLC and the recording harness%s."
             % P.get("trusts", ""))
    return " ".join(n)


def specs(P):
    return sorted({s for _, s in P["traces"]})


checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    checks.append({
        "property": i, "quick_cmd": "python3 bin/check.py %s" % i, "thorough_cmd": "python3 bin/check.py %s --thorough" % i,
        "technique": "TLA+ specification checked with TLC: trace validation of recorded histories (%s)" % ", ".join(specs(P))
                     + ("; exhaustive model whose behaviours are replayed into the code (%s)" % ", ".join(P["scripts"]) if P.get("scripts") else "")
                     + ("; exhaustive models of the mechanism (%s)" % ", ".join(m[1] for m in P["models"]) if P.get("models") else ""),
        "level": "model_checking",
        "level_note": note(P),
    })
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS],
     "notes": "No hooks: the harness uses the public API only."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
