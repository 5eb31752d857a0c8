#!/usr/bin/env python3
"""mk.py ID PROPERTY < spec: spec is python defining edits=[(file,old,new)], demo, needs, breaks. Edits are applied in the copy named by W."""
import sys, json, os, subprocess
W=os.environ.get("W","/tmp/w")
def make(id, prop, edits, demo, needs, breaks):
    d=f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    subprocess.run(f"git -C {W} checkout -q -- .", shell=True)
    for f,old,new in edits:
        p=f"{W}/{f}"; s=open(p).read()
        if s.count(old)!=1: print(id,"edit matches",s.count(old),f); return
        open(p,"w").write(s.replace(old,new))
    open(f"{d}/demo.rs","w").write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f"{d}/meta.json","w"),indent=1)
    subprocess.run(["bash","/verif/tools/seed.sh",id])
