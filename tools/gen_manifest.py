#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when /verif/harness has harnesses for it."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {}
for f in sorted(glob.glob(here + "/harness/*.go")):
    for m in re.finditer(r"^func Verif(C\d+)_(\w+)\(", open(f).read(), re.M):
        have.setdefault(m.group(1), []).append(m.group(2))
NA = {}  # property -> reason
checks, na = [], []
for l in open(here + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in NA or i not in have:
        na.append(dict(property=i, reason=NA.get(i, "harness not built yet; the property is within reach of the technique")))
        continue
    checks.append(dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="bounded symbolic execution of the real Go code (go/ssa) with z3 deciding every branch and assertion; counterexamples replayed natively",
        level="model_checking",
        level_note="Bounded: holds for every value of the symbolic inputs, truths, answers, faults, clock values or schedules within the bounds stated per harness (%s) in the evidence file. Trusts the environment models in env/ (files, DNS, clock, flags, TLS, ideal hash, smtpd state machine), the library models in symgo/intrinsics.go and z3." % ", ".join(have[i])))
json.dump(dict(version=1, setup_cmd="bash check.sh build", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the checks copy /repo's sources into a scratch module and redirect imports of packages that touch the outside world to the models in env/."),
    open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
