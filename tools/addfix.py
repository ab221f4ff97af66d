"""python3 tools/addfix.py C20 COMMIT 'what failed': add a fixed entry to known_findings.json"""
import json
import sys

p = "known_findings.json"
d = json.load(open(p))
n = 1 + max(int(e["id"][1:]) for e in d["findings"])
props = sys.argv[1].split(",")
d["findings"].append(
    {"id": f"F{n:02}", "status": "fixed", "properties": props, "commit": sys.argv[2],
     "record": f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"}
)
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
