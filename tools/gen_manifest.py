#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness sources."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(V + "/harness/*.go"))
built = set(re.findall(r'ID:\s*"(P\d\d)"', src))
N = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in built:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    n = N[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                       thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique=n["technique"], level="exploration", level_note=n["note"]))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="All checks are property-based: generated cases against an oracle, shrunk by rapid. "
               "No hooks in /repo; harness/go.mod replaces the module gotor by /repo/src.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
