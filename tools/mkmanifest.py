#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, tools/na.json and the groups check.py can build."""
import json, sys
sys.path.insert(0, '/verif')
import check
NOTE = {
 "lib": "Exploration: seeded simulated runs, each repeatable from its seed and replayed from its choice list. Runs the real library built from the working tree under AddressSanitizer with exact-size buffers and drawn fresh-memory contents; the oracle is an independent reference model in /verif/model. Trusts that model and the simulator; a clean batch samples the space and is no proof.",
 "conc": "Exploration of thread schedules: real library code on simulated threads of which exactly one runs at a time, switched at drawn basic blocks and memory accesses. Sequentially consistent; trusts the sequential results of the same library as the oracle.",
 "tools": "Exploration: the real example programs (main renamed) on a simulated capture library, file system and output, all drawn from the seed. Trusts the pcap stand-in and the reference model.",
 "myconc": "Exploration of thread schedules: real libmy code on simulated threads of which exactly one runs at a time, switched at drawn basic blocks and memory accesses (C14 also with delayed and reordered stores). Trusts the simulator and a small reference model.",
 "zone": "Exploration: the real zone reader on a simulated file, shell, decompressor and a small stand-in for ldns (not installed here), all drawn from the seed. Trusts that stand-in and the generator's own list of records.",
 "myio": "Exploration: real libmy code on simulated clock, sleep, descriptor and file system with drawn faults; oracle is a small reference model of the promised behaviour.",
}
TECH = {
 "lib": "deterministic simulation with fault injection: seeded runs against a reference model",
 "conc": "deterministic simulation: seeded thread schedules of the real code, compared with sequential results",
 "tools": "deterministic simulation with fault injection: simulated capture files and I/O against a reference model",
 "myconc": "deterministic simulation: seeded thread schedules and faults, checked against a reference model",
 "zone": "deterministic simulation with fault injection: simulated file, shell and decompressor, checked against the records written",
 "myio": "deterministic simulation with fault injection: simulated clock, I/O and file system against a reference model",
}
NOTES = json.load(open('/verif/tools/notes.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
na = json.load(open('/verif/tools/na.json'))
naids = {x['property'] for x in na}
checks = []
for p in props:
    i = p['id']
    if i in naids:
        continue
    g = check.GROUP_OF.get(i)
    if g not in check.BUILT:
        na.append({"property": i, "reason": "not built yet: its simulator is designed in DESIGN.md and under construction"})
        continue
    c = {"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
         "technique": TECH[g], "level": "exploration", "level_note": NOTES.get(i, NOTE[g])}
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it needs from /repo's working tree into /verif/build (git-ignored). Replay a violation with: python3 check.py <id> --replay <file>."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
