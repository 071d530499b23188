#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, the harnesses' doc comments, the
properties and seeded_results.txt."""
import glob, json, os, re

here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
doc = {}
for f in sorted(glob.glob(os.path.join(V, "harness", "c*.go"))):
    for m in re.finditer(r"((?:^//[^\n]*\n)*)func Verif(C\d\d)_(\w+)\(", open(f).read(), re.M):
        d = " ".join(l[2:].strip() for l in m.group(1).strip().split("\n"))
        doc.setdefault(m.group(2), []).append((m.group(3), d))
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    out.append("### %s %s\n" % (p["id"], p["title"]))
    for n, d in doc.get(p["id"], []):
        out.append("* `%s`: %s" % (n, d))
    out.append("")
seed = ["| change | property | what it needs | caught by |", "|---|---|---|---|"]
res = {}
rf = os.path.join(here, "seeded_results.txt")
if os.path.exists(rf):
    for l in open(rf):
        a = l.rstrip("\n").split("\t")
        res[a[0]] = a[1]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seed.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), res.get(d, "(not run)")))
t = open(os.path.join(here, "design.in.md")).read()
t = t.replace("@@HARNESSES@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(seed))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
