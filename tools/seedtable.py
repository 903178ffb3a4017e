"""Rewrite the table of planted bugs in DESIGN.md (not used by any check)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for path in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    prop = json.load(open(path))["property"]
    name = path.split("/")[-2]
    rows.setdefault(prop, []).append(name[4:] if name[:3].upper() == prop else name)
table = "| check | catches |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(b)) for p, b in sorted(rows.items()))
text = open(HERE + "/DESIGN.md").read()
new = re.sub(r"\| check \| catches \|\n\|---\|---\|\n(\|.*\n)+", lambda m: table, text)
open(HERE + "/DESIGN.md", "w").write(new)
