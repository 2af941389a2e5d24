#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
props = [json.loads(l) for l in open('properties.jsonl')]
SIM = ("runtime monitoring: online/offline trace monitors over simulated clusters of the real nodes "
       "(virtual time, randomized schedules, Byzantine actor, crash and fault injection)")
NOTE = ("randomised exploration of executions, every case replayable from its seed; decides what the monitors saw, "
        "nothing beyond the executed schedules; mock signatures are assumed unforgeable")
T = {k: (SIM, 'exploration', NOTE) for k in
     'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C20 C24 C28 C13 C21'.split()}
SCEN = ("runtime monitoring: model-based conformance monitor over scripted runs of one real node (virtual time, "
        "randomized valid, early, late, forged and silent inputs, restarts), plus the trace monitors")
for k in 'C19 C22 C23 C25'.split():
    T[k] = (SCEN, 'exploration', NOTE)
CODEC = ("runtime monitoring: independent reference encoder/decoder, leader rule and bitmap reader as oracles over generated values, "
         "and over every message, log and certificate real nodes produce and consume in simulated clusters")
for k in 'C15 C16 C17 C18'.split():
    T[k] = (CODEC, 'exploration', NOTE)
T['C26'] = ("runtime monitoring: live-byte counter in the global allocator, over thousands of heights of simulated clusters (virtual time)", 'exploration', NOTE)
T['C27'] = ("sanitizers: clusters on real threads under ThreadSanitizer and AddressSanitizer, small ones under Miri, and a hang monitor on native runs", 'exploration',
            "what the sanitizers saw in the executed schedules; thread schedules are the machine's and are not replayed exactly; signatures are mocks")
NA = {}
checks = []
for p in props:
    i = p['id']
    if i not in T:
        continue
    t, l, n = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
na = [{"property": p['id'], "reason": NA.get(p['id'], "check under construction")} for p in props if p['id'] not in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
