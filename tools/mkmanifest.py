#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
NOTE = ("Model checking: TLC explores small worlds of the TLA+ specification completely or to a budget, with the property "
        "stated as invariant or step predicate independently of the actions. Binding: every transition found is carried out "
        "on the real entry point (real SPL token processor, emulated runtime), together with random histories, and TLC "
        "compares each recorded call with the single outcome the specification allows. Covers the explored worlds and "
        "recorded histories only; trusts the runtime emulation and the linked token processor.")
STATE = {"C01": "vaults equal obligations", "C02": "locked funds equal resting orders", "C03": "book shape",
         "C22": "issued ids", "C25": "market constants", "C29": "seat capacity"}
checks = []
for p in props:
    t = "TLA+ specification model-checked with TLC; replay of its transitions into the program and TLC trace validation of recorded behaviours"
    if p["id"] in STATE:
        t += f"; state predicate ({STATE[p['id']]}) on observed states"
    checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} quick",
                       thorough_cmd=f"python3 tools/check.py {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=t, level="model_checking", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 tools/check.py setup",
         hooks=dict(guard="cargo feature `test` of phoenix-v1 (declared there, used by nothing else)",
                    enable="harness/Cargo.toml depends on /repo with features no-entrypoint and test",
                    source_commits=["c43a4d1"]),
         checks=checks, not_applicable=[])
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
