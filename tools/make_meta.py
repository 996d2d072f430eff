"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties import PROPS, NOT_CLAIMED  # noqa: E402

with open(os.path.join(VERIF, "properties.jsonl"), "w") as ff:
    for pp in PROPS:
        row = {"id": pp["id"], "title": pp["title"], "statement": pp["statement"],
               "quantifier": {"over": pp["over"], "text": pp["quant"]},
               "why_tests_cant": pp["why"],
               "anchors": {"files": pp["files"],
                           "mechanism": [{"name": nn, "where": ww} for nn, ww in pp["mech"]]}}
        assert len(row["title"]) <= 80, row["title"]
        ff.write(json.dumps(row) + "\n")

checks, missing = [], []
for pp in PROPS:
    pid = pp["id"]
    if pid in NOT_CLAIMED or not os.path.exists(
            os.path.join(VERIF, "mc", "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": NOT_CLAIMED.get(pid, "check not built yet")})
        continue
    checks.append({
        "property": pid, "quick_cmd": f"./check.sh {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": pp["technique"], "level": "model_checking",
        "level_note": pp["note"]})
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, scipy, networkx, shapely, sklearn' "
                 "&& /opt/venv/bin/python -B tools/selftest.py",
    "checks": checks, "not_applicable": missing,
    "notes": "No hooks in /repo: the checks drive the public API of the code directly. "
             "The unavailable third-party packages vartools and dynamic_obstacle_avoidance are "
             "replaced by the stand-ins in /verif/standins (see DESIGN.md)."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as ff:
    json.dump(manifest, ff, indent=1)
    ff.write("\n")
print(len(checks), "claimed;", [mm["property"] for mm in missing], "not claimed")
