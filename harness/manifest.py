"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = ("TLA+ specification checked with TLC: traces recorded from the library are validated against it, "
        "and transitions of the property's explored model are replayed on the library")
NOTE = ("Exhaustive over the model's constants (catalogue of declarations, small value domains, bounded depth); "
        "recorded random runs are a sample of declarations, values and histories beyond them. Trusted: the specification's "
        "functions standing for user callbacks, the JSON encoding of values, TLC.")
m = {
    "version": 1,
    "setup_cmd": "bash harness/setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python harness/check.py {p['id']} quick",
            "thorough_cmd": f"/opt/venv/bin/python harness/check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE,
        }
        for p in props
    ],
    "not_applicable": [],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
