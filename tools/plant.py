#!/usr/bin/env python3
"""Creates and re-checks planted bugs.

plant.py new <spec.py>      spec.py defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python source)
plant.py check [ids...]     apply each bug in /repo, build, run its demo and its property's check; print a table
"""
import sys, os, json, subprocess, runpy, time
REPO = os.environ.get("PLANT_REPO", "/tmp/plantrepo"); SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded"); VERIF = os.path.dirname(SEED)
def sh(cmd, cwd=REPO, timeout=900):
    try: r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return 124, "", "timeout"
    return r.returncode, r.stdout, r.stderr
VP = REPO + ".vp"       # the build and test scripts for a copy of the repository
def prepare():
    """an up-to-date copy of /repo"""
    sh(["rm", "-rf", REPO, VP], cwd="/"); sh(["cp", "-a", "/repo", REPO], cwd="/"); os.makedirs(VP)
    for f in os.listdir("/opt/vp"):
        if f.endswith(".sh"): open(os.path.join(VP, f), "w").write(open("/opt/vp/" + f).read().replace("/repo", REPO).replace("/opt/vp/", VP + "/").replace("PYTHONPATH=%s:/opt/vp" % REPO, "PYTHONPATH=%s:%s" % (REPO, VP)))
        else: sh(["cp", "-a", "/opt/vp/" + f, VP], cwd="/")
def clean(): 
    sh("git checkout -q -- .")
    return sh("bash " + VP + "/build.sh")
def tests():
    sh("bash %s/test.sh %s/out.json" % (VP, VP), timeout=900)
    o = json.load(open(VP + "/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return [t for t in b["stable"] if t not in o["passed"]]
def run_check(pid, tier="quick"):
    t = time.time(); rc, out, err = sh("SWITSS_REPO=%s VERIF_TIER=%s VERIF_SEED=1 ./run.sh %s" % (REPO, tier, pid), cwd=VERIF, timeout=3600)
    return rc, out.strip(), time.time() - t
def evaluate(d, full=True, check=True):
    """full: the stable tests and the demo on the unchanged tree as well"""
    meta = json.load(open(os.path.join(d, "meta.json"))); res = {}
    assert sh("git status --porcelain")[1].strip() == "", "repo not clean"
    pyx = ".pyx" in open(os.path.join(d, "patch.diff")).read()
    demo = ["bash", os.path.join(d, "demo.sh")]
    try:
        if full:
            res["demo_clean"] = sh(demo, timeout=300)[0]
        r = sh(["git", "apply", os.path.join(d, "patch.diff")])
        if r[0]: return dict(error="does not apply: " + r[2])
        if pyx or full:
            r = sh("bash " + VP + "/build.sh")
            if r[0]: return dict(error="does not build " + r[2][-500:])
        if full: res["broken_tests"] = tests()
        r = sh(demo, timeout=300); res["demo_bug"] = r[0]; res["demo_out"] = (r[1] + r[2]).strip()[-300:]
        if check:
            rc, out, dt = run_check(meta["property"]); res["check"] = rc; res["check_out"] = out[-700:]; res["check_s"] = round(dt, 1)
    finally:
        sh("git checkout -q -- .")
        if pyx: sh("bash " + VP + "/build.sh")
    return res
def new(spec):
    s = runpy.run_path(spec); d = os.path.join(SEED, s["ID"]); os.makedirs(d, exist_ok=True)
    assert sh("git status --porcelain")[1].strip() == "", "repo not clean"
    for f, old, neu in s["EDITS"]:
        p = os.path.join(REPO, f); t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, neu))
    diff = sh("git diff")[1]; sh("git checkout -q -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["DEMO"].strip() + "\n")
    for name, text in s.get("FILES", {}).items(): os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True); open(os.path.join(d, name), "w").write(text)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nd=$(mktemp -d) || exit 99\ntrap \'rm -rf "$d"\' EXIT\nexport DEMO_SCRATCH="$d" TMPDIR="$d"\ntimeout 100 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d
if __name__ == "__main__":
    prepare()
    if sys.argv[1] == "new":
        for spec in sys.argv[2:]:
            d = new(spec); r = evaluate(d)
            ok = r.get("demo_clean") == 0 and r.get("demo_bug") not in (0, None) and r.get("broken_tests") == []
            print(os.path.basename(d), "VALID" if ok else "INVALID", "CAUGHT" if r.get("check") == 1 else "MISSED", json.dumps(r, indent=1) if not ok or r.get("check") != 1 else r.get("check_s"), flush=True)
    else:
        full = "--full" in sys.argv; ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(SEED))
        for i in ids:
            r = evaluate(os.path.join(SEED, i), full=full)
            print("%-40s %s demo=%s check=%s %ss %s" % (i, json.load(open(os.path.join(SEED, i, "meta.json")))["property"], r.get("demo_bug"), r.get("check"), r.get("check_s"), r.get("error", "") or (r.get("broken_tests") or "")), flush=True)
