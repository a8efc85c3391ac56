"""Runs one check: enumerates its cases exhaustively on all cores, compares each execution of the real code with
the reference model, writes the evidence file, and reports violations with a replay file."""
import os, sys, json, time, hashlib, importlib, shutil, tempfile, traceback, signal, struct, resource, collections, atexit
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
HANG = float(os.environ.get("MC_HANG", "120"))           # a single case that runs this long counts as a hang
HANGCPU = float(os.environ.get("MC_HANGCPU", "40" if TIER == "quick" else "400"))     # or uses this much processor time
DEADLINE = float(os.environ.get("MC_DEADLINE", "420" if TIER == "quick" else "20000"))
WORKERS = int(os.environ.get("MC_WORKERS", str(min(8, os.cpu_count() or 1))))

class Fail(Exception):
    pass

class Ctx:
    """what a check reports about one case"""
    def __init__(self):
        self.ops = 0; self.traces = 0; self.states = set(); self.outcomes = collections.Counter(); self.fails = []
        self.notes = collections.Counter(); self.tier = TIER; self.known = collections.Counter(); self.listed = set()
    def op(self, n=1): self.ops += n
    def trace(self, n=1): self.traces += n
    def state(self, *key): self.states.add(hash(key))
    def outcome(self, *o): self.outcomes["/".join(map(str, o))] += 1
    def note(self, k, n=1): self.notes[k] += n
    def fail(self, msg, **data): self.fails.append((msg, data))
    def finding(self, key, msg, **data):
        """a failure identified by key (input and observed outcome): reported as a known finding if it is listed, as a failure otherwise.
        Returns whether it is listed."""
        if key in self.listed: self.known[key] += 1; return True
        self.fails.append((msg + " [%s]" % key, data)); return False
    def require(self, cond, msg, **data):
        if not cond: self.fail(msg, **data)
        return bool(cond)

def scratch_root():
    for base in (["/dev/shm"] if os.access("/dev/shm", os.W_OK) else []) + [tempfile.gettempdir()]:
        try:
            if shutil.disk_usage(base).free > 200 << 20:
                return tempfile.mkdtemp(prefix="switss-mc-", dir=base)
        except OSError: pass
    return tempfile.mkdtemp(prefix="switss-mc-")

def quiet_fds():
    """the code under test and the solvers print; keep that out of the report"""
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)

def run_case(mod, case, ctx):
    before = len(ctx.fails)
    try:
        mod.check(case, ctx)
    except Fail as e:
        ctx.fail(str(e))
    except AssertionError as e:
        ctx.fail("AssertionError: %s\n%s" % (e, traceback.format_exc(limit=-6)))
    except MemoryError:
        ctx.fail("MemoryError")
    except Exception as e:
        ctx.fail("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))
    return ctx.fails[before:]

def worker_env(scratch, tag):
    d = os.path.join(scratch, "w%s" % tag); os.makedirs(d, exist_ok=True)
    os.environ["TMPDIR"] = os.environ["TMP"] = os.environ["TEMP"] = d; tempfile.tempdir = d
    os.chdir(d)
    try:
        if not os.environ.get("MC_ASAN"): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))      # the address sanitizer reserves terabytes
    except (ValueError, OSError): pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def cpu(pid):
    """processor time of a process in seconds"""
    try:
        with open("/proc/%d/stat" % pid) as f: x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError): return 0.0

class Shared:
    def __init__(self, n):
        import mmap
        self.m = mmap.mmap(-1, 64 * (n + 1))
    def put(self, w, k): struct.pack_into("qd", self.m, 64 * (w + 1), k, time.monotonic())
    def get(self, w): return struct.unpack_from("qd", self.m, 64 * (w + 1))
    def stop(self): self.m[0] = 1
    def stopped(self): return self.m[0] == 1

def worker(mod, cases, indices, w, shared, scratch, outpath, deadline):
    worker_env(scratch, w)
    quiet_fds()
    ctx = Ctx(); ctx.listed = listed(mod); done = 0; failed = []; truncated = None
    known_keys = {(e["property"], e.get("key")) for e in known_findings() if e.get("status") == "known"}
    for k in indices:
        if shared.stopped(): break
        if time.monotonic() > deadline: truncated = k; break
        shared.put(w, k)
        fs = run_case(mod, cases[k], ctx)
        done += 1
        if fs:
            failed.append((k, fs))
            if (mod.__name__[-3:].upper(), case_key(cases[k])) in known_keys: continue
            shared.stop(); break
    shared.put(w, -1)
    with open(outpath + ".tmp", "w") as f:
        json.dump(dict(done=done, truncated=truncated, ops=ctx.ops, traces=ctx.traces, states=sorted(ctx.states),
                       outcomes=ctx.outcomes, notes=ctx.notes, known=ctx.known, failed=failed), f, default=str)
    os.rename(outpath + ".tmp", outpath)
    os._exit(0)

def explore(mod, cases, scratch, todo, deadline):
    t0 = time.monotonic(); n = len(todo); W = max(1, min(WORKERS, n))
    shared = Shared(W); pids = {}; results = []; crashes = []
    late = {}; began = {}
    idx = {w: todo[w::W] for w in range(W)}
    out = {w: os.path.join(scratch, "out%d.json" % w) for w in range(W)}
    for o in out.values():
        if os.path.exists(o): os.unlink(o)
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(W):
        pid = os.fork()
        if pid == 0:
            try: worker(mod, cases, idx[w], w, shared, scratch, out[w], deadline)
            finally: os._exit(3)
        pids[pid] = w; shared.put(w, -1)
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02); now = time.monotonic()
            for p, w in list(pids.items()):
                k, t = shared.get(w); busy = 0.0
                if k >= 0:
                    if began.get(w, (None,))[0] != k: began[w] = (k, cpu(p))
                    elif now - t > HANGCPU / 2: busy = cpu(p) - began[w][1]
                if not (k >= 0 and (now - t > HANG or busy > HANGCPU)): late.pop(w, None); continue
                if late.setdefault(w, (k, now))[0] != k: late[w] = (k, now)
                if now - late[w][1] > 2:                    # seen repeatedly, not just one reading
                    os.kill(p, signal.SIGKILL)
                    crashes.append((k, "no answer within %.0f s (%.0f s of processor time)" % (now - t, busy), w)); shared.stop()
            continue
        if pid not in pids: continue
        w = pids.pop(pid)
        if os.path.exists(out[w]):
            results.append((w, json.load(open(out[w]))))
        else:
            k, _ = shared.get(w)
            if not any(c[2] == w for c in crashes):
                how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st)
                crashes.append((k, "process died (%s)" % how + asan_report(scratch), w))
            shared.stop()
    return results, crashes, idx, time.monotonic() - t0

def asan_report(scratch):
    """what the address sanitizer said last"""
    import glob
    fs = sorted(glob.glob(os.path.join(scratch, "asan.*")), key=os.path.getmtime)
    return "" if not fs else "\n" + "\n".join([l for l in open(fs[-1], errors="replace").read().split("\n") if l.strip() and not l.startswith("=====")][:16])

def rerun(mod, cases, ks, scratch, limit=HANG):
    """runs cases[k] for k in ks one after the other in a fresh process; returns the failures of the last one"""
    out = os.path.join(scratch, "rerun.json")
    if os.path.exists(out): os.unlink(out)
    pid = os.fork()
    if pid == 0:
        try:
            worker_env(scratch, "r"); quiet_fds(); ctx = Ctx(); ctx.listed = listed(mod); fs = []
            for k in ks: fs = run_case(mod, cases[k], ctx)
            with open(out + ".tmp", "w") as f: json.dump(fs, f, default=str)
            os.rename(out + ".tmp", out); os._exit(0)
        finally: os._exit(3)
    t = time.monotonic()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        if time.monotonic() - t > limit + 30 or len(ks) == 1 and cpu(pid) > HANGCPU + 5:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
            return [("no answer within %.0f s" % (time.monotonic() - t), {})]
        time.sleep(0.02)
    if os.path.exists(out): return [tuple(x) for x in json.load(open(out))]
    return [("process died (status %d)" % st + asan_report(scratch), {})]

def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def listed(mod):
    return {e.get("key") for e in known_findings() if e.get("status") == "known" and e["property"] == mod.__name__[-3:].upper()}

def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]

def load(pid):
    return importlib.import_module("checks." + pid.lower())

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        rep = json.load(open(sys.argv[2])); pid = rep["property"]
    else:
        rep = None; pid = sys.argv[1].upper()
    t0 = time.monotonic()
    # second stage runs under the rand() shim when the check needs it
    need_shim = pid in ("C14", "C16", "C30"); asan = pid == "C30"
    if os.environ.get("MC_STAGE") != "2":
        scratch = scratch_root()
        import build, subprocess
        try:
            flags = None; extra = {}
            if need_shim: extra["MC_SHIM"] = extra["LD_PRELOAD"] = so = build.randshim(scratch)
            if asan:
                ae = build.asan_env(scratch, so); flags = build.ASANFLAGS if ae else build.COUNTFLAGS
                extra.update(ae or {}, MC_ASAN="1" if ae else "", MC_CFLAGS=flags)
                try: resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))      # instrumented frames are larger
                except (ValueError, OSError): pass
            src, how = build.prepare(scratch, flags)
            env = dict(os.environ, MC_STAGE="2", MC_SCRATCH=scratch, MC_SRC=src, MC_HOW=how + ("" if not asan else ", address sanitizer" if ae else ", address sanitizer cannot be loaded"), TMPDIR=scratch, **extra)
            env["PYTHONPATH"] = src
            p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env=env)
            for s in (signal.SIGTERM, signal.SIGINT):
                signal.signal(s, lambda *_: (p.terminate(), None))
            rc = p.wait()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc >= 0 else 2)
    scratch = os.environ["MC_SCRATCH"]; src = os.environ["MC_SRC"]
    os.environ.pop("LD_PRELOAD", None)
    sys.path.insert(0, src)
    so, se = os.dup(1), os.dup(2)
    quiet_fds()
    try:
        mod = load(pid)
    finally:
        sys.stdout.flush(); sys.stderr.flush(); os.dup2(so, 1); os.dup2(se, 2)
    if rep is not None:
        cases = rep["history"] + [rep["case"]]
        if hasattr(mod, "setup"): mod.setup(scratch)
        fs = rerun(mod, cases, list(range(len(cases))), scratch)
        for m, d in fs: print("FAILS:", m, json.dumps(d, default=str)[:2000])
        print("reproduced" if fs else "does not fail"); sys.exit(1 if fs else 0)
    cases = list(mod.cases(TIER))
    if hasattr(mod, "setup"): mod.setup(scratch)
    ops = traces = done = 0; wall = 0.0; states = set(); outcomes = collections.Counter(); notes = collections.Counter()
    violations = []; known = []; seen = set(); unreproduced = []; stride = int(os.environ.get("MC_STRIDE", "1")); todo = [k for r in range(stride) for k in range(r, len(cases), stride)]; deadline = time.monotonic() + DEADLINE
    kf = {(e["property"], e.get("key")): e for e in known_findings() if e.get("status") == "known"}
    for rnd in range(4):
        results, crashes, idx, dt = explore(mod, cases, scratch, todo, deadline); wall += dt
        cand = []; finished = set()
        for w, r in results:
            ops += r["ops"]; traces += r["traces"]; states.update(r["states"]); outcomes.update(r["outcomes"]); notes.update(r["notes"])
            seen.update(r["known"]); done += r["done"]; finished.update(idx[w][:r["done"]])
            for k, fs in r["failed"]: cand.append((k, fs, w))
        for k, m, w in crashes: cand.append((k, [(m, {})], w))
        cand.sort(key=lambda c: c[0]); again_todo = set()
        for k, fs, w in cand:
            e = kf.get((pid, case_key(cases[k])))
            if e: known.append((k, e)); continue
            if violations: continue
            hist = []; again = rerun(mod, cases, [k], scratch) if k >= 0 else []
            if not again and k >= 0:
                pre = [j for j in idx[w] if j < k]
                for tail in (20, len(pre)):
                    again = rerun(mod, cases, pre[-tail:] + [k], scratch, limit=HANG + 300)
                    if again: hist = [cases[j] for j in pre[-tail:]]; break
                    if tail >= len(pre): break
            if not again: unreproduced.append((k, fs)); again_todo.add(k); continue
            violations.append((k, again, hist, fs))
        if not violations and len(unreproduced) >= 3:
            k, fs = unreproduced[0]; violations.append((k, fs, [], fs))
        # a failure that did not happen again stopped the others: go on with the rest
        todo = [k for k in todo if k not in finished or k in again_todo]
        done -= len(again_todo & finished)
        if violations or not todo or not unreproduced or time.monotonic() > deadline: break
    exhaustive = (not violations and done == len(cases))
    bounds = mod.bounds(TIER)
    samples = [cases[i] for i in sorted({0, len(cases) // 3, 2 * len(cases) // 3, len(cases) - 1}) if 0 <= i < len(cases)]
    cov = dict(bounds=bounds, cases_total=len(cases), cases_run=done, exhaustive=exhaustive, distinct_outcomes=len(outcomes),
               outcomes=dict(outcomes.most_common(60)), samples=samples, notes=dict(notes), code=os.environ.get("MC_HOW", ""),
               unreproduced=[[case_key(cases[k]), str(fs)[:500]] for k, fs in unreproduced])
    level = getattr(mod, "LEVEL", "model_checking")
    if level == "model_checking":
        cov.update(states=len(states), transitions=ops, traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=ops, distinct_nontrivial=len(states), rule=mod.RULE, executions=traces)
    if not exhaustive and not violations: cov["truncated"] = "%d of %d cases run (time limit, or a failure that did not happen again)" % (done, len(cases))
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.monotonic() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for e in sorted({e["what"] for k, e in known} | {kf[pid, k]["what"] for k in seen}): print("KNOWN-FINDING: property=%s %s" % (pid, e))
    print("%s %s: %d/%d cases, %d states, %d operations, %d executions, %d distinct outcomes, %.1f s%s" % (
        pid, TIER, done, len(cases), len(states), ops, traces, len(outcomes), wall, "" if exhaustive else " (not exhausted)"))
    for k, fs in unreproduced: print("  did not happen again: case %s: %s" % (case_key(cases[k]), str(fs)[:600]))
    if violations:
        k, fs, hist, _ = violations[0]
        rd = os.path.join(ROOT, "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (pid, case_key(cases[k])))
        with open(path, "w") as f:
            json.dump(dict(property=pid, case=cases[k], history=hist, failures=fs, key=case_key(cases[k]),
                           run="./run.sh replay " + path), f, indent=1, default=str)
        for m, d in fs[:3]: print("  " + m.strip().replace("\n", "\n  ")[:1500] + ("" if not d else "  " + json.dumps(d, default=str)[:800]))
        print("  case: " + json.dumps(cases[k], default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path)); sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
