#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per check module in mc/checks, and the properties that are not claimed."""
import json, os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
NOTE = {
 "C01": "Every model of the enumerated families, numberings and target sets is reduced by the real code; reach probabilities before and after are compared with exact rational schedulers enumeration.",
 "C14": "The real MEC code runs under an LD_PRELOADed rand() whose answers are enumerated, so that every treap shape is covered for the enumerated models.",
 "C16": "The real treap code (compiled against the current .pxd) runs under every enumerated rand() answer sequence.",
 "C22": "Every pattern of solver answers (per call index) is injected below the real solver layer.",
}
TECH = {
 "model_checking": "exhaustive enumeration of bounded models and operation sequences on the real code, every execution compared with an exact explicit-state reference model",
 "fault_enumeration": "exhaustive enumeration of solver/process answer patterns injected into the real code",
}
NA = {
}
checks = []
import importlib.util, sys
for p in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9][0-9].py"))):
    pid = os.path.basename(p)[:-3].upper(); src = open(p).read()
    m = re.search(r'^LEVEL\s*=\s*"(\w+)"', src, re.M); level = m.group(1) if m else "model_checking"
    t = re.search(r'^TECHNIQUE\s*=\s*"([^"]+)"', src, re.M)
    n = re.search(r'^LEVEL_NOTE\s*=\s*"([^"]+)"', src, re.M)
    doc = re.match(r'"""(.*?)"""', src, re.S).group(1).split(":", 1)[1].strip().replace("\n", " ")
    note = n.group(1) if n else NOTE.get(pid) or "Complete within the stated bounds (evidence: coverage.bounds): " + doc
    checks.append(dict(property=pid, quick_cmd="./run.sh " + pid, thorough_cmd="VERIF_TIER=thorough ./run.sh " + pid,
                       evidence_file="evidence/%s.json" % pid, technique=t.group(1) if t else TECH[level], level=level, level_note=note))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = {c["property"] for c in checks}
na = [dict(property=i, reason=NA.get(i, "not built yet")) for i in ids if i not in have]
man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
           notes="No hooks are needed in /repo: all seams (solver, rand(), prism, stormpy, methods) are reachable from outside. Findings: known_findings.json.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
