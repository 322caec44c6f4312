"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
head = "| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a)
rows = []
for n in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", n, "meta.json")))
    rows.append(f"| {n} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:])
