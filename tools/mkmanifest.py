#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the drivers present in harness/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TSAN = {"P26", "P27", "P28", "P45"}
checks, na = [], []
for p in props:
    i = p["id"]
    src = V + "/harness/%s.cpp" % i
    if not os.path.exists(src):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    head = open(src).read(2000)
    m = re.search(r"//\s*VH-TECH:\s*(.*)", head)
    tech = m.group(1).strip() if m else "online model-based monitor over generated histories under ASan+UBSan"
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "runtime monitoring: " + tech,
        "level": "exploration",
        "level_note": "Holds on every execution generated and observed (counts in the evidence file); the oracle is independent of the library's code. "
                      + ("Trusts ThreadSanitizer and the monitors; interleavings are sampled with injected delays, not enumerated." if i in TSAN else
                         "Trusts the reference model in the driver, ASan/UBSan and the compiler; inputs are sampled plus small exhaustive ranges, not proved."),
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: drivers use the public API, injected delays use linker wrapping."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
