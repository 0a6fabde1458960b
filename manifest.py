#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and profiles.py."""
import json
import os
import profiles
ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
note = ("TLC checks the invariants of the specification on every state it explores (exhaustive for the small "
        "bounds, random for the large ones) and every printed case is replayed on the real crate (both holders, "
        "loader and functions), or the trace of the real crate is validated by TLC; it assumes that the bounds "
        "sample the inputs well and trusts TLC, the harness and its projection of nodes.")
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": profiles.TECHNIQUE.get(p["id"], profiles.TECHNIQUE["default"]),
        "level": "model_checking",
        "level_note": note,
    } for p in props if p["id"] in profiles.PROPERTIES],
    "not_applicable": [{"property": p["id"], "reason": profiles.NOT_APPLICABLE.get(p["id"], "The specification does not cover it yet.")}
                       for p in props if p["id"] not in profiles.PROPERTIES],
    "notes": "No hooks: the public API of the crate exposes all the observed state. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
