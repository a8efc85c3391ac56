#!/usr/bin/env python3
"""Writes the 'fixed' entries of known_findings.json from the fix commits in /repo (the 'known' entries are kept)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); P = os.path.join(ROOT, "known_findings.json")
PROP = {"1e14263": "C18", "942cc10": "C18", "974ffa0": "C02", "25ad423": "C11", "3f70648": "C11", "d7936db": "C20", "73ebc88": "C05", "00321d1": "C15", "f53d09e": "C15", "bee4740": "C15", "a783542": "C19",
 "09a7068": "C06", "2a3007b": "C07", "3f93d80": "C21", "3740222": "C21", "0e41248": "C21", "edcc387": "C13", "98baf27": "C12", "e0a45e9": "C13", "a4efd7e": "C12", "6be80bd": "C12", "69688bc": "C17", "3f82a70": "C25",
 "c7d22bb": "C25", "aaf75ed": "C26", "c21889c": "C26", "38677c5": "C26", "0a4af34": "C22", "7101ed0": "C24", "61a593a": "C21", "5543888": "C21", "ce79b3f": "C09", "8f97ea2": "C16", "f31062a": "C19", "885efd9": "C19",
 "ca75a78": "C21", "3539f34": "C21", "4fc5e70": "C21", "50689c1": "C21", "dfb1cd8": "C13", "b9c236d": "C24", "b9d5ae3": "C27", "5c69fda": "C27", "19ee913": "C27", "a3b26e4": "C27"}
try: PROP.update(json.load(open(os.path.join(ROOT, "tools", "fix_props.json"))))
except FileNotFoundError: pass
known = [e for e in json.load(open(P)) if e["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "b59221d..HEAD"], capture_output=True, text=True).stdout.split("\n")
out = []
for l in log:
    if " fix: " not in l: continue
    h, s = l.split(" fix: ", 1)
    if h in ("ad86345", "d7688ba"): continue          # undone again: benchmark files count as test files
    out.append(dict(status="fixed", property=PROP[h], commit=h, what=s, entry="fixed: property=%s %s %s" % (PROP[h], h, s)))
json.dump(known + out, open(P, "w"), indent=1); print(len(known), "known,", len(out), "fixed")
