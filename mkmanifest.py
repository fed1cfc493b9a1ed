#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json
from plan import PLAN, ASSUME
T = {
    "C01": "model-based runtime monitor: histories mirrored on a vector of options",
    "C02": "runtime ledger of element lifetimes with injected panics",
    "C03": "AddressSanitizer, Miri, valgrind and a watching allocator over hostile calls",
    "C04": "model-based runtime monitor: comparisons judged by vectors of options",
    "C05": "model-based runtime monitor: all views mirrored on a list of lists",
    "C06": "model-based runtime monitor: finished table against the pairs given",
    "C07": "history monitor: order and conservation against a multiset, item ledger",
    "C08": "runtime oracle on yielded slices by address",
    "C09": "allocator accounts and address monitor around every call",
    "C10": "runtime oracle: iterators under mixed consumption against the list of items, item ledger",
    "N01": "replay comparison across threads, orders and processes; ThreadSanitizer",
}
checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    note = ("Monitors judged every execution driven by the seeded workload; nothing is claimed about inputs that were "
            "not driven. Worker(s): %s." % ", ".join("%s/%s" % (r["bin"], r["variant"]) for r in PLAN[i]))
    if ASSUME.get(i):
        note += " Assumes: " + "; ".join(ASSUME[i]) + "."
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": T.get(i, "runtime oracle over generated executions (independent reference judges each result)"),
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "cfg(verif_hooks)",
        "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (variants hdev and hrel of check.py; only C08, C10, R08 and M03 need it; verif_no_iters, verif_no_colour and verif_no_triang leave one hook out each)",
        "source_commits": ["00442d200b71648d9f93d9716563ca331e6e1ade", "aff7fdd3f83cfd52531fee5f091fe71353d99c46",
                           "c2482334a5d4d2b76ca592e9f0647a012b645156",
                           "9429006a1aa5cc79b38fcadf2a052c3fd147726d"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Run in /verif. Findings, all repaired, are in known_findings.txt; see DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks))
