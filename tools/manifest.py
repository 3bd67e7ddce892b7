# Writes /verif/MANIFEST.json from tools/checks.py
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from checks import CHECKS
NA = {}
for p in [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]:
    if p not in CHECKS and p not in NA:
        NA[p] = "no check has been built yet"
m = {
 "version": 1,
 "setup_cmd": "bash tools/build.sh _build/fast fast",
 "hooks": {"guard": "YAGA_SIM", "enable": "tools/build.sh compiles /repo/src with -DYAGA_SIM (build files of its own, in /verif)",
           "source_commits": ["088128c"]},
 "checks": [{"property": k, "quick_cmd": f"python3 tools/check.py {k}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {k}",
             "technique": v["technique"], "level": "exploration", "level_note": v["note"]} for k, v in sorted(CHECKS.items())],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
