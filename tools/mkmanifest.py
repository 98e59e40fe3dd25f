#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/specs.py and properties.jsonl."""
import json, pathlib, sys
sys.dont_write_bytecode = True
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "lib"))
import specs

TECH = {
    "C08": "runtime monitoring: recorded concurrent histories checked for linearizability, ThreadSanitizer build",
    "C09": "runtime monitoring: reference-model monitor with a recording atomic layer, ASan+UBSan",
    "C16": "runtime monitoring: lifetime registry with injected failures, ASan+UBSan",
    "C26": "runtime monitoring: the compilers' constant evaluators against sanitized executions of the same histories",
}
GEN = "runtime monitoring of seed-generated programs against the generator's model, ASan+UBSan"
REF = "runtime monitoring: reference-model monitor on random histories, ASan+UBSan builds from two compilers"
props = [json.loads(l) for l in open(V / "properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i}",
            "thorough_cmd": f"bin/check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, GEN if getattr(s, "generated", False) else REF),
            "level": "exploration",
            "level_note": "held on the executions observed; " + getattr(s, "note", "no claim beyond the generated histories"),
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "bin/check reads VERIF_SEED and VERIF_TIER, compiles the harnesses against /repo/include and runs them "
              "under sanitizers; see DESIGN.md"}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
