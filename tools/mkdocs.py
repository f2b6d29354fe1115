#!/opt/venv/bin/python
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and the harnesses that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

NA = getattr(props, "NA", {})
have = [p for p in props.P if os.path.exists(os.path.join(V, "harness", p["id"].lower() + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in have + [p for p in props.P if p["id"] in NA]:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
NOTE = ("Every obligation on every feasible path of the real code, executed symbolically from /repo's current source, is "
        "decided by z3 (or reduced to a constant by the encoder) for all inputs within the bounds written in the evidence; "
        "counterexamples are replayed on the uninstrumented code before they are reported. Trusts the encoder's model of "
        "Python's built-in types (cross-checked by replaying a witness of each case on the real code) and z3.")
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "/opt/venv/bin/python /verif/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "/opt/venv/bin/python /verif/check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "bounded symbolic execution of the real code, decided by an SMT solver (z3)",
        "level": "model_checking",
        "level_note": NOTE,
    } for p in have],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(have), "properties")
