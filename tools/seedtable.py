"""python3 tools/seedtable.py: rewrite the table of planted bugs in DESIGN.md"""
import glob
import json
import re

rows = ["| Bug | Property | What it breaks |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[1]} | {d['property']} | {d['what_it_breaks']} |")
text = open("DESIGN.md").read()
block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
text = text.replace("@SEEDS", block)
text = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: block, text, flags=re.S)
open("DESIGN.md", "w").write(text)
