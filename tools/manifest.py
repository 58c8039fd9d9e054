#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
built = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37 C38 C39".split()
tech = {
    "C30": "runtime monitoring: results of repeated, interleaved, concurrent and separate-process executions are compared with the first, inputs before with after",
    "C38": "runtime monitoring: the same operations run in processes built with other features, optimisation and assertions, and their results are compared with those of the monitors' own build",
    "C31": "sanitizers: address sanitizer on all operations, a counting allocator for memory kept, and the Miri interpreter for undefined behaviour and data races on a share of the cases",
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"bash check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech.get(i, "runtime monitoring: an independent model judges generated executions of the real code, built with debug assertions and overflow checks, under a supervisor that attributes panics, crashes and runaways"),
            "level": "exploration",
            "level_note": "holds for the executions that were observed; counts, events and samples are in the evidence file",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks, "not_applicable": na,
           "notes": "Every check builds the monitors in /verif/target from /repo's working tree. Known findings are in known_findings.txt."},
          open(root + '/MANIFEST.json', 'w'), indent=1)
