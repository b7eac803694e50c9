"""writes MANIFEST.json from the list of properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = {}
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("Every recorded call of the contract (built from the working tree, run receipt by receipt with chosen failures and interleavings) is compared with the outcome the TLA+ "
        "specification computes from the state before, and every state with its invariants; exhaustive within the histories run, not a proof for all histories. "
        "Trusted: TLC, near-vm-logic 3.1, the harness' scheduler and its mock tokens and oracles.")
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p["id"],
                 "technique": "TLA+ specification, TLC trace validation of the real contract's runs", "level": "model_checking", "level_note": NOTE} for p in P if p["id"] not in PENDING],
     "not_applicable": [{"property": k, "reason": v} for k, v in PENDING.items()],
     "notes": "No hooks: the contracts are observed through their receipts, returned values and views."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
