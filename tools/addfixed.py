"""addfixed.py PROP COMMIT WHAT: records a repaired defect."""
import json
import os
import sys
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
data = json.load(open(path))
data["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
with open(path, "w") as ff:
    json.dump(data, ff, indent=1)
    ff.write("\n")
