#!/usr/bin/env python3
"""mk.py ID PROPERTY: reads from stdin  file / old / new edits and a demo, and writes /verif/seeded/ID.
Format: blocks separated by lines '@@@ file F', '@@@ old', '@@@ new', '@@@ needs', '@@@ breaks', '@@@ demo', '@@@ pkg'."""
import json, os, re, shutil, subprocess, sys
id, prop = sys.argv[1:3]
V = "/verif"; d = f"{V}/seeded/{id}"; w = f"/tmp/seed/{id}"
parts = re.split(r"(?m)^@@@ (.*)\n", sys.stdin.read())[1:]
subprocess.run(["bash", f"{V}/tools/seed.sh", "new", id], check=True)
os.makedirs(d, exist_ok=True)
f = old = None; meta = {"property": prop}
for k, body in zip(parts[::2], parts[1::2]):
    k = k.strip()
    if k.startswith("file "): f = k[5:]
    elif k == "old": old = body.rstrip("\n")
    elif k == "new":
        s = open(f"{w}/{f}").read(); new = body.rstrip("\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    elif k == "needs": meta["needs"] = " ".join(body.split())
    elif k == "breaks": meta["what_it_breaks"] = " ".join(body.split())
    elif k == "pkg": open(f"{d}/pkg", "w").write(body.strip() + "\n")
    elif k == "demo": open(f"{d}/demo_test.go", "w").write(body)
json.dump(meta, open(f"{d}/meta.json", "w"), indent=1)
shutil.copy(f"{V}/tools/demo.sh", f"{d}/demo.sh")
open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
