"""C23: benchmarks.run with every behaviour of the minimisation method."""
from common import *
import os, tempfile

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all method behaviours up to a bound (sequences of results per threshold) with the real benchmark loop, compared with an explicit-state reference of the documented loop"
ASSUMPTIONS = ["a method behaviour is, per threshold, a sequence of at most 3 results, each a success with some value, a failure (notsolved, undefined, unbounded) or infeasible; methods stop after the first non-success unless the enumerated behaviour goes on",
               "recorded times are only required to be nonnegative, nondecreasing within a threshold and as many as the values"]
RES = {"s": ("success", 3), "t": ("success", 7), "z": ("success", 0), "n": ("notsolved", None), "u": ("undefined", None), "b": ("unbounded", None), "i": ("infeasible", None)}

def behaviours(th):
    out = [w for k in (1, 2, 3 if th else 2) for w in map("".join, itertools.product("sni" if k > 2 else "stni", repeat=k))]
    return sorted(set(out + ["z", "u", "b", "su", "sb", "iu", "ss", "sss", "sni", "nns", "sti", "zsn"]))

RANGES = [(0.1, 0.3, 0.1), (0.25, 1, 0.25), (0.5, 0.5, 0.1), (0.2, 0.9, 0.3), (0.001, 0.004, 0.001), (0.7, 1.5, 0.1), (0.1, 0.7, 0.2), (0.05, 0.2, 0.07), (0.9, 1, 0.05), (1/3, 1, 1/3)]

def cases(tier):
    th = tier == "thorough"; B = behaviours(th); out = []
    for i, r in enumerate(RANGES):
        for j, b in enumerate(B): out.append(dict(kind="one", range=r, first=b, k=i * 7 + j))
    out += [dict(kind="multi", range=RANGES[i % 4], k=i) for i in range(48 if th else 24)]
    out += [dict(kind="real", k=i) for i in range(12)]
    out += [dict(kind="strmode", mode=m, n=n) for m in ("min", "max") for n in (1, 2)]
    return out

def bounds(tier):
    return "all sequences of results of length <=%d over success (2 values) / notsolved / infeasible and further ones with unbounded, undefined, value 0 and results after a failure, for the first three thresholds (all triples in which one threshold takes every behaviour and the others rotate over all), 10 threshold ranges, stop_on_timeout on/off, with and without JSON, timeout and labels; lists of methods (of different types, or of one type with different parameters) and modes; MILPExact and QSHeur on 6 forms" % (3 if tier == "thorough" else 2)

def expected_thresholds(f, t, s):
    f, t, s = F(str(round(f, 9))) if f != 1 / 3 else F(1, 3), F(str(round(t, 9))), F(str(round(s, 9))) if s != 1 / 3 else F(1, 3)
    out = []; x = f; t = min(t, F(1))
    while x <= t: out.append(x); x += s
    return out

_thr = {}
def thresholds(run, rng, ctx):
    """the thresholds the benchmark uses for a range: the documented ones, or those of a listed finding"""
    if rng not in _thr:
        f, t, s = rng; want = expected_thresholds(f, t, s); log = []
        run(small_rf(), make(["s"], log), "min", f, t, s); got = [th for _, th, *_ in log]
        ok = len(got) == len(want) and all(abs(a - float(b)) < 1e-9 for a, b in zip(got, want))
        _thr[rng] = (ok, want if ok else [F(x) for x in got], want)
    ok, use, want = _thr[rng]
    if not ok:
        key = "range %s: thresholds %s" % (tuple(round(x, 6) for x in rng), [round(float(x), 6) for x in use])
        if not ctx.finding(key, "range %s: thresholds %s, documented are %s" % (rng, [float(x) for x in use], [float(x) for x in want])): raise Done()
    return use
class Done(Exception): pass

def make(script, log, name="M", details=None):
    """a method whose behaviour per call is script[call]"""
    from switss.problem import ProblemFormulation, ProblemResult
    class Stub(ProblemFormulation):
        def __init__(self): super().__init__(); self.calls = 0
        @property
        def details(self): return dict(details or {"type": name, "x": 1})
        def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
            k = self.calls; self.calls += 1; log.append((name, float(threshold), mode, labels, timeout, id(reach_form)))
            for c in script[k % len(script)]:
                st, v = RES[c]; yield ProblemResult(st, None, v, None)
    return Stub()

def reference(thrs, script, stop):
    """the documented loop; returns the list of (threshold, values) and the number of method calls"""
    run = []; calls = 0
    for thr in thrs:
        w = script[calls % len(script)]; calls += 1; vals = []
        for c in w:
            st, v = RES[c]
            if st == "infeasible": return run, calls
            if st != "success":
                vals.append(-1)
                if stop: run.append((thr, vals)); return run, calls
            else: vals.append(v)
        run.append((thr, vals))
    return run, calls

def compare(data, want, mode, details, ctx, what, nres=None):
    if not isinstance(data, dict) or data.get("method") != details or data.get("mode") != mode: return what + "method/mode recorded as %s/%s" % (data.get("method"), data.get("mode"))
    got = [(float(e["threshold"]), list(e["value"])) for e in data["run"]]
    if [v for _, v in got] != [v for _, v in want]: return what + "recorded %s, expected %s" % (got, [(float(t), v) for t, v in want])
    if any(abs(t - float(w)) > 1e-9 for (t, _), (w, _) in zip(got, want)): return what + "thresholds %s, expected %s" % ([t for t, _ in got], [float(w) for w, _ in want])
    for e in data["run"]:
        for k in ("wall_times", "proc_times"):
            x = e[k]
            if len(x) != len(e["value"]) or any(y < 0 for y in x) or any(b < a for a, b in zip(x, x[1:])): return what + "%s %s for values %s" % (k, x, e["value"])

_rf = None
def small_rf():
    global _rf
    if _rf is None: _rf = M.Built(M.chain(4)).rf()
    return _rf

def check(case, ctx):
    try: return check2(case, ctx)
    except Done: return

def check2(case, ctx):
    import switss.benchmarks as bm
    from switss.benchmarks import benchmarks
    run = bm.run if hasattr(bm, "run") else benchmarks.run
    if case["kind"] == "real": return real(case, ctx, run)
    if case["kind"] == "strmode": return strmode(case, ctx, run)
    f, t, s = case["range"]; thrs = thresholds(run, tuple(case["range"]), ctx); rf = small_rf(); B = behaviours(ctx.tier == "thorough"); k = case["k"]
    if case["kind"] == "multi": return multi(case, ctx, run, thrs, B)
    for pos in range(min(3, len(thrs))):
        for other in range(len(B)):
            o = B[(other + k) % len(B)]; p = B[(other * 5 + k + 1) % len(B)]
            script = [o, p, o]; script[pos] = case["first"]
            # the position only matters if the thresholds before it are passed
            for stop in (True, False):
                log = []; m = make(script, log); mode = ("min", "max")[(k + other) % 2]; labels = [None, ["a", "b"]][(k + other // 3) % 2]; tmo = [None, 5][(k + pos) % 2]
                js = tempfile.mkdtemp() if (other + pos + stop) % 4 == 0 else None
                what = "behaviour %s, range %s, stop_on_timeout=%s: " % (script, case["range"], stop)
                data = run(rf, m, mode, from_thr=f, to_thr=t, step=s, labels=labels, timeout=tmo, stop_on_timeout=stop, json_dir=js, debug=(other + pos) % 5 == 0)
                want, calls = reference(thrs, script, stop); ctx.op(calls); ctx.trace(); ctx.state(str(script), str(case["range"]), stop)
                ctx.outcome(len(want), "all" if calls == len(thrs) else "stopped", stop)
                e = compare(data, want, mode, m.details, ctx, what)
                if e: return ctx.fail(e)
                if len(log) != calls: return ctx.fail(what + "%d method calls, expected %d" % (len(log), calls))
                for (nm, th, mo, la, ti, i), w in zip(log, thrs):
                    if abs(th - float(w)) > 1e-9 or mo != mode or la != labels or ti != tmo or i != id(rf): return ctx.fail(what + "method called with threshold %s mode %s labels %s timeout %s" % (th, mo, la, ti))
                if js:
                    files = os.listdir(js)
                    if len(files) != 1: return ctx.fail(what + "json files %s" % files)
                    if json.load(open(os.path.join(js, files[0]))) != json.loads(json.dumps(data)): return ctx.fail(what + "the json file differs from the result")
                    os.unlink(os.path.join(js, files[0])); os.rmdir(js)

def multi(case, ctx, run, thrs, B):
    f, t, s = case["range"]; rf = small_rf(); k = case["k"]
    for j in range(12):
        log = []; n = 1 + (k + j) % 3; scripts = [[B[(k * 5 + j * 3 + q * 7 + r) % len(B)] for r in range(2 + q % 2)] for q in range(n)]
        ms = [make(scripts[q], log, "M%d" % q, None if j % 2 else {"type": "M", "solver": "s", "iterations": q}) for q in range(n)]; cont = (list, tuple)[j % 2]
        mode = [["min"], ["max", "min"], ["min", "max"], ("max",)][(k + j) % 4]; modes = [mode] if isinstance(mode, str) else list(mode); stop = j % 3 != 0
        labels = [None, ["a"]][j % 2]; tmo = [None, 3][k % 2]; js = tempfile.mkdtemp() if j % 4 < 2 else None
        data = run(rf, cont(ms), mode, f, t, s, stop_on_timeout=stop, labels=labels, timeout=tmo, json_dir=js)
        what = "methods with behaviours %s, modes %s, stop_on_timeout=%s: " % (scripts, mode, stop); ctx.trace(); ctx.state("multi", str(scripts), str(mode), stop)
        if len(data) != n * len(modes): return ctx.fail(what + "%d records" % len(data))
        at = [0] * n; i = 0; nlog = 0
        for q in range(n):
            for mo in modes:
                rot = [scripts[q][(at[q] + r) % len(scripts[q])] for r in range(len(scripts[q]))]
                want, calls = reference(thrs, rot, stop); at[q] += calls; ctx.op(calls)
                e = compare(data[i], want, mo, ms[q].details, ctx, what + "record %d: " % i)
                if e: return ctx.fail(e)
                for l in log[nlog:nlog + calls]:
                    if l[0] != "M%d" % q or l[2] != mo or l[3] != labels or l[4] != tmo or l[5] != id(rf): return ctx.fail(what + "method called as %s in record %d" % (l[:5], i))
                nlog += calls; i += 1
        if nlog != len(log): return ctx.fail(what + "%d method calls, expected %d" % (len(log), nlog))
        ctx.outcome("multi", n, len(modes))
        if js:
            files = sorted(os.listdir(js))
            if len(files) != n * len(modes): return ctx.fail(what + "json files %s" % files)
            recs = [json.load(open(os.path.join(js, x))) for x in files]
            for d in data:
                if json.loads(json.dumps(d)) not in recs: return ctx.fail(what + "a record is in no json file")
            for x in files: os.unlink(os.path.join(js, x))
            os.rmdir(js)

def strmode(case, ctx, run):
    """several methods and a single mode given as a string: one record per method"""
    log = []; ms = [make(["s"], log, "M%d" % i) for i in range(case["n"])]
    ctx.trace(); ctx.op()
    try: data = run(small_rf(), ms, case["mode"], 0.1, 0.2, 0.1)
    except AssertionError:                     # the modes 'm', 'i', ... are none
        return ctx.finding("list of methods, mode %r: AssertionError" % case["mode"], "a list of methods with mode=%r (a string) ends with an AssertionError" % case["mode"])
    got = [d["mode"] for d in data]
    ctx.require(got == [case["mode"]] * case["n"], "a list of %d methods with mode=%r was run with modes %s" % (case["n"], case["mode"], got))

def real(case, ctx, run):
    """the real methods: the record is what solveiter yields"""
    from switss.problem import MILPExact, QSHeur
    k = case["k"]; spec = [M.chain(4), M.detour(2, "1/2"), M.grid(2, 2), M.btree(2), M.layered(1, 2), M.wide(3)][k % 6]; mode = ("min", "max")[k // 6]
    rf = M.Built(spec).rf(); e = exact(spec, mode)[0]
    for m in (MILPExact(), QSHeur(iterations=1), QSHeur(iterations=3)):
        data = run(rf, m, mode, from_thr=0.1, to_thr=1, step=0.15); ctx.trace()
        want = []; T = thresholds(run, (0.1, 1, 0.15), ctx)
        for thr in T:
            if thr > e: break
            rs = list(m.solveiter(rf, float(thr), mode)); want.append((thr, [r.value for r in rs])); ctx.op(len(rs))
        er = compare(data, want, mode, m.details, ctx, "%s on form %d: " % (m, k))
        if er and min(abs(t - e) for t in T) > F(1, 10**6): return ctx.fail(er)
        ctx.state("real", k, str(m)); ctx.outcome("real", len(want))
