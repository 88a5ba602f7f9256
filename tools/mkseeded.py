"""Append the table of planted bugs to DESIGN.md."""
import json
import os
import re

os.chdir(os.path.join(os.path.dirname(__file__), ".."))
rows = []
for b in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['needs']} |")
head = "| bug | caught by (quick) | needs |\n|---|---|---|\n"
s = open("DESIGN.md").read()
mark = "<!-- seeded -->\n"
s = s.split(mark)[0].rstrip("\n") + "\n\n" + mark + head + "\n".join(rows) + "\n"
open("DESIGN.md", "w").write(s)
print(len(rows), "planted bugs")
