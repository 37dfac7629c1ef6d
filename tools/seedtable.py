#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"].replace("\n", " ").strip()))
table = "| change | property | what it needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (i, p, n) for p, i, n in sorted(rows))
p = root + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@SEEDS@@", "")
s = re.sub(r"\| change \| property \| what it needs \|\n(\|.*\n)*", lambda _: table, s)
open(p, "w").write(s)
