#!/usr/bin/python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import check

NOTES = json.load(open(os.path.join(VERIF, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": "TLA+ specification model checked by TLC; recorded executions of the code judged by TLC",
        "level": "model_checking",
        "level_note": NOTES.get(i, "bounded model; the code is covered as far as the recorded executions reach"),
    } for i in ids if i in check.CHECKS],
    "not_applicable": [{"property": i, "reason": "check not built yet"}
                       for i in ids if i not in check.CHECKS],
}
json.dump(manifest, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(manifest["checks"]), "checks")
