#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a function in bin/checks.py."""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/bin/checks.py").read()
have = set(x.upper() for x in re.findall(r"^(?:def )?(c\d\d)(?:\(| = )", src, re.M))
NOTES = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in have:
        t, n = NOTES[p]
        checks.append(dict(property=p, quick_cmd="bin/check.py " + p, thorough_cmd="VERIF_TIER=thorough bin/check.py " + p,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=p, reason=NOTES.get("na", {}).get(p, "check under construction")))
json.dump(dict(version=1, setup_cmd="bin/setup.sh", checks=checks, not_applicable=na,
               notes="TLA+/TLC specifications in spec/, harness in harness/; no hooks in /repo."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
