"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
d = open("DESIGN.md").read()
head, _ = d.split("| change | property | needs | by |\n", 1)
rows = []
for s in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {m['property']} |\n")
open("DESIGN.md", "w").write(head + "| change | property | needs | by |\n|---|---|---|---|\n" + "".join(rows))
print(len(rows))
