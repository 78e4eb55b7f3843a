# writes MANIFEST.json from properties.jsonl
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = "TLA+ specification checked with TLC; bounded model's behaviours and seeded histories replayed on the library, recorded traces validated by TLC"
N = ("Exhaustive within the bounds of the property's model; every behaviour the model explored, and seeded histories beyond its bounds, are "
     "executed on the library built from /repo and the recorded trace is validated event by event against spec/Trace.tla. Trusts TLC, the "
     "independent crypto in java/Crypto.java and the harness's logging; says nothing about inputs neither enumerated nor generated.")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                 "technique": T, "level": "model_checking", "level_note": N} for p in props],
     "not_applicable": [],
     "notes": "No hooks in /repo: every observation goes through the public API. Known findings: known-findings.txt."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
