#!/usr/bin/env python3
"""bugtable.py LOG...: rewrite the table of planted bugs at the end of DESIGN.md from tools/try.sh logs (later lines win)."""
import json, os, re, sys
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+): (C\d\d) exit=(\d)", l)
        if m: res[m.group(1)] = (m.group(2), m.group(3))
p = "/verif/DESIGN.md"; s = open(p).read()
old = dict(re.findall(r"^\| ([\w-]+) \| C\d\d \| (.*) \|$", s, re.M))
head = s[:s.index("| bug | property |")]
rows = []
for b in sorted(os.listdir("/verif/seeded")):
    prop = json.load(open(f"/verif/seeded/{b}/meta.json"))["property"]
    r = f"{res[b][0]} quick" if b in res and res[b][1] == "1" else ("missed" if b in res else old.get(b, "not run"))
    rows.append(f"| {b} | {prop} | {r} |")
open(p, "w").write(head + "| bug | property | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n")
print(len(rows), [r for r in rows if "missed" in r or "not run" in r])
