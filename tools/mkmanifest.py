#!/usr/bin/env python3
import json, sys
sys.dont_write_bytecode = True
sys.path[:0] = ["/verif/lib", "/verif/checks"]
import registry
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = getattr(registry, "NOT_APPLICABLE", {})
checks = []; na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": registry.TECH.get(i, "TLA+ specification model-checked with TLC; executions of the real code validated against it by TLC"),
                       "level": "model_checking", "level_note": registry.NOTE.get(i, "exhaustive on the bounded specification; conformance of the code on the explored executions")})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
