"""C31: what benchmarks.render draws, for every recorded benchmark of a bounded shape and every choice of options."""
from common import *

TECHNIQUE = "exhaustive enumeration of all recorded runs up to a bound (produced by the real benchmark loop from every method behaviour) times all plot options, with the drawn curves read back from the matplotlib axes and compared with the records"
ASSUMPTIONS = ["the axes are matplotlib's (Agg backend); curves, labels and axis texts are read from the axes object, pixels are not looked at",
               "sol_range contains indices of results from 0 on, and in the time modes also -1 (the last result)"]
TIMES = [0.25, 1.0, 1.5, 40.0, 0.0, 7.25]
MODES = ["states-thr", "laststates-thr", "wall_time-thr", "proc_time-thr"]

def shapes(tier):
    """sequences of value lists of the thresholds of a run; -1: not solved. A run has as many results per threshold as the method
    yields: the same number each time, except that a threshold with a failure may have fewer"""
    th = tier == "thorough"; V = [3, 12000, 7, 1]; out = [[]]
    for k in (1, 2, 3):
        full = [list(V[i:i + k]) for i in range(2)] + [[V[0]] * k]
        short = [list(V[1:1 + j]) + [-1] for j in range(k)]
        for n in (1, 2, 3) if th or k < 3 else (1, 2):
            for w in itertools.product(range(len(full) + len(short)), repeat=n):
                out.append([(full + short)[x] for x in w])
    return out

def cases(tier):
    S = shapes(tier); th = tier == "thorough"
    out = [dict(kind="shape", run=s, k=i) for i, s in enumerate(S)]
    out += [dict(kind="several", k=i) for i in range(120 if th else 40)]
    out += [dict(kind="run", k=i, first=b, second=c) for i, (b, c) in enumerate(itertools.product(BEH, repeat=2))]
    out += [dict(kind="real", k=i) for i in range(6)] + [dict(kind="noaxes")]
    return out
BEH = ["s", "st", "ts", "n", "sn", "stz", "i", "u"]

def bounds(tier):
    return "all runs with up to %d thresholds and up to 3 results per threshold (2 thresholds for 3 results%s), each a full list from 3 patterns of values or cut short by a failure at any position; the run of an infeasible benchmark; 4 modes, normalize on/off, custom label or none, timeout value or none, capping of short times on/off, all subsets of results as sol_range, title, tick format, markers, marker size and line width, plot_no 1-3; several runs on one axes; runs recorded by the benchmark loop for all pairs of 8 behaviours of a method and for QSHeur and MILPExact" % (3, "; also 3" if tier == "thorough" else "")

def record(run, k):
    r = []
    for i, v in enumerate(run):
        w = sorted(TIMES[(k + i + j) % 6] for j in range(len(v))); p = sorted(TIMES[(k + 2 * i + j * 5 + 3) % 6] for j in range(len(v)))
        r.append({"threshold": round(0.1 * (i + 1) + 0.01 * (k % 5), 3), "value": list(v), "wall_times": w, "proc_times": p})
    return {"method": {"type": ["MILPExact", "QSHeur", "my method"][k % 3], "solver": "cbc"}, "mode": "min", "run": r}

def expected(d, mode, normalize=True, sol_range=None, custom_label=None, timeout_val=None, cap=True):
    """list of (label, points)"""
    R = d["run"]; n = max((len(e["value"]) for e in R), default=0); name = d["method"]["type"] if custom_label is None else custom_label
    lab = lambda i: name if n <= 1 else r"%s$_{%s}$" % (name, i + 1); out = []
    if mode.endswith("states-thr"):
        for i in range(n) if sol_range is None else sol_range:
            if mode[0] == "l":
                if i != n - 1: continue
                els = [(e["threshold"], e["value"][-1]) for e in R]
            else: els = [(e["threshold"], e["value"][i]) for e in R if i < len(e["value"])]
            els = [(t, timeout_val if v == -1 and timeout_val is not None else v) for t, v in els]
            out.append((lab(i), [(t, v / 1000 if normalize else v) for t, v in els]))
    else:
        key = {"w": "wall_times", "p": "proc_times"}[mode[0]]
        for i in [-1] if sol_range is None else sol_range:
            els = [(e["threshold"], e[key][i]) for e in R if i < len(e[key])]
            els = [(t, 1 if cap and 0 <= v <= 1 else v) for t, v in els]
            out.append((name if sol_range is None or n <= 1 else lab(i) if i >= 0 else None, els))
    return out

EMPTY = "render: a run without thresholds: IndexError"
MISSING = "render: a chosen result is missing at a threshold (a failure cut its results short): IndexError"
FEWER = "render: the first threshold has fewer results than another one: results beyond its number are not drawn, the last result is not the last one of the others"
def listed(d, mode, normalize=True, sol_range=None, custom_label=None, timeout_val=None, cap=True):
    """for the inputs of the listed findings: (key, curves or None for an IndexError); otherwise None"""
    R = d["run"]
    if not R: return EMPTY, None
    n = len(R[0]["value"]); m = max(len(e["value"]) for e in R); time = mode[0] in "wp"
    idx = ([-1] if time else range(n)) if sol_range is None else sol_range
    if mode[0] == "l": idx = [i for i in idx if i == n - 1]
    if any(i >= len(e["value"]) for i in idx for e in R): return MISSING, None
    if n >= m: return None
    name = d["method"]["type"] if custom_label is None else custom_label; lab = lambda i: name if n == 1 else r"%s$_{%s}$" % (name, i + 1); out = []
    for i in idx:
        if time: els = [(e["threshold"], 1 if cap and 0 <= e[k][i] <= 1 else e[k][i]) for k in [{"w": "wall_times", "p": "proc_times"}[mode[0]]] for e in R]
        else: els = [(t, v / 1000 if normalize else v) for t, v in [(e["threshold"], timeout_val if e["value"][i] == -1 and timeout_val is not None else e["value"][i]) for e in R]]
        out.append((name if time and sol_range is None else None if time and i < 0 else lab(i), els))
    return FEWER, out

def draw(ctx, render, d, mode, ax, what, opt={}, extra={}, start=0):
    """renders; returns the axes if the curves are as recorded, None otherwise (a listed finding, or a failure)"""
    o = dict(opt); cap = o.pop("cap_times_below_onesec", True); want = expected(d, mode, cap=cap, **o); known = listed(d, mode, cap=cap, **o)
    try: r = render(d, mode, ax=ax, **opt, **extra)
    except IndexError as e:
        if known and known[1] is None: ctx.finding(known[0], what + "IndexError for %s" % [(x["threshold"], x["value"]) for x in d["run"]]); return
        raise
    got = lines(ax if ax is not None else r, start)
    if same(got, want): return r
    if known and known[1] is not None and same(got, known[1]): ctx.finding(known[0], what + "draws %s, the record has %s" % ([g[:2] for g in got], want)); return
    ctx.fail(what + "draws %s, the record has %s" % ([g[:2] for g in got], want))

def axes():
    from matplotlib.figure import Figure
    return Figure().add_subplot()

def lines(ax, start=0):
    return [(l.get_label(), list(zip([float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()])), l) for l in ax.get_lines()[start:]]

def same(got, want):
    got = [(l, sorted(p)) for l, p, _ in got if p or want]; want = [(l, sorted(p)) for l, p in want]
    empty = lambda x: [y for y in x if y[1]]          # a curve without points is no curve
    got, want = empty(got), empty(want)
    if len(got) != len(want): return False
    return all((wl is None or gl == wl) and len(gp) == len(wp) and all(abs(a[0] - float(b[0])) < 1e-12 and abs(a[1] - b[1]) <= 1e-12 * max(1, abs(b[1])) for a, b in zip(gp, wp)) for (gl, gp), (wl, wp) in zip(got, want))

def options(mode, n, full):
    """all choices of the options that matter for the curves"""
    subs = [None] + [list(c) for j in range(1, n + 1) for c in itertools.combinations(range(n), j)]
    if mode[0] in "wp": subs.append([-1])
    if n > 1: subs.append(list(range(n))[::-1])
    for sr in subs if full else subs[:1]:
        for lb in (None, "lab"):
            if mode.endswith("states-thr"):
                for no in (True, False):
                    for tv in (None, 5000, 0): yield dict(sol_range=sr, custom_label=lb, normalize=no, timeout_val=tv)
            else:
                for cap in (True, False): yield dict(sol_range=sr, custom_label=lb, cap_times_below_onesec=cap)

def judge(ctx, render, d, mode, opt, what, extra={}):
    before = json.dumps(d); ax = axes(); ctx.op(); ctx.trace(); bad = len(ctx.fails)
    what = "%smode %s, options %s: " % (what, mode, {**opt, **extra}); r = draw(ctx, render, d, mode, ax, what, opt, extra)
    if json.dumps(d) != before: return ctx.fail(what + "the record is modified")
    if r is None: ctx.outcome(mode, "defect"); return len(ctx.fails) == bad
    if r is not ax: return ctx.fail(what + "the axes are not returned")
    want = got = lines(ax)
    yl = "time [s]" if mode[0] in "wp" else "states of subsystem (x1000)" if opt.get("normalize", True) else "states of subsystem"
    if ax.get_ylabel() != yl or "threshold" not in ax.get_xlabel(): return ctx.fail(what + "axis labels %r, %r" % (ax.get_xlabel(), ax.get_ylabel()))
    if got and any(p for _, p, _ in got):
        leg = ax.get_legend(); names = [t.get_text() for t in leg.get_texts()] if leg else []
        if names != [l for l, _, _ in got]: return ctx.fail(what + "legend %s for curves %s" % (names, [l for l, _, _ in got]))
        if len({l for l, _, _ in got}) != len(got): return ctx.fail(what + "two curves have the same label")
    if "title" in extra and extra["title"] is not None and ax.get_title() != extra["title"]: return ctx.fail(what + "title %r" % ax.get_title())
    for l, p, ln in got:
        if "markersize" in extra and ln.get_markersize() != extra["markersize"]: return ctx.fail(what + "marker size %s" % ln.get_markersize())
        if "linewidth" in extra and ln.get_linewidth() != extra["linewidth"]: return ctx.fail(what + "line width %s" % ln.get_linewidth())
        if extra.get("markers") is not None and ln.get_marker() not in extra["markers"]: return ctx.fail(what + "marker %s" % ln.get_marker())
    if extra.get("e_mode") and "e" not in ax.xaxis.get_major_formatter()(0.01, 0): return ctx.fail(what + "thresholds are shown as %r" % ax.xaxis.get_major_formatter()(0.01, 0))
    ctx.outcome(mode, len(want), len(d["run"])); return True

def check(case, ctx):
    import warnings, matplotlib; matplotlib.use("Agg"); warnings.simplefilter("ignore")
    import logging; logging.getLogger("matplotlib").setLevel(logging.ERROR)
    from switss.benchmarks import render, run
    k = case.get("k", 0); th = ctx.tier == "thorough"
    if case["kind"] == "shape":
        d = record(case["run"], k); n = max(map(len, case["run"]), default=0); ctx.state(str(case["run"]))
        for m, mode in enumerate(MODES):
            for j, o in enumerate(options(mode, n, th or len(case["run"]) < 3 or k % 4 == m)):
                extra = {}
                if (j + k) % 5 == 0: extra = dict(title=["A title", None, ""][(j + k) // 5 % 3], e_mode=(j % 2 == 0), markersize=3 + j % 4, linewidth=1 + j % 3)
                if (j + k) % 5 == 1: extra = dict(plot_no=1 + (j + k) // 5 % 3)
                if (j + k) % 5 == 2: extra = dict(markers=["s", "p", "h"])
                if not judge(ctx, render, d, mode, o, "record %s: " % [(e["threshold"], e["value"], e["wall_times"]) for e in d["run"]], extra): return
        draw(ctx, lambda d, mode, ax: render(d, ax=ax), d, "laststates-thr", axes(), "defaults: ")
    elif case["kind"] == "several":
        S = shapes("quick"); ax = axes(); at = 0; mks = []
        for q in range(2 + k % 2):
            d = record(S[(k * 37 + q * 101) % len(S)], k + q); mode = MODES[(k + q * (k % 3)) % 4]; lb = "run %d" % q
            what = "plot %d on the same axes, mode %s, record %s: " % (q + 1, mode, d["run"])
            draw(ctx, render, d, mode, ax, what, dict(custom_label=lb), dict(plot_no=q + 1), at); got = lines(ax, at); ctx.op(); at = len(ax.get_lines()); ctx.trace(); ctx.state(k, q)
            mks += [(q, ln.get_marker()) for _, _, ln in got]
        if any(a[0] != b[0] and a[1] == b[1] for a, b in itertools.combinations(mks, 2)): return ctx.fail("plots with different plot_no have the same markers: %s" % mks)
        ctx.outcome("several", at)
    elif case["kind"] == "noaxes":
        import matplotlib.pyplot as plt
        for mode in MODES:
            plt.close("all"); d = record([[3, 2], [5, 4]], 1); ax = render(d, mode); ctx.op(); ctx.trace()
            if not same(lines(ax), expected(d, mode)) or ax.figure is not plt.gcf(): return ctx.fail("without axes, mode %s: draws %s" % (mode, lines(ax)))
        plt.close("all"); ctx.state("noaxes"); ctx.outcome("noaxes")
    else:
        if case["kind"] == "run":
            from checks import c23
            m = c23.make([case["first"], case["second"], case["first"]], []); rf = c23.small_rf(); what = "method with behaviours %s, %s: " % (case["first"], case["second"])
            ds = [run(rf, m, "min", 0.2, 0.6, 0.2, stop_on_timeout=stop) for stop in (True, False)]
        else:
            from switss.problem import QSHeur, MILPExact
            b = M.Built([M.chain(4), M.birthdeath(3), M.btree(2)][k % 3]); rf = b.rf(); what = "recorded run %d: " % k
            ds = [run(rf, QSHeur(iterations=1 + k % 3) if k < 3 else MILPExact(), ["min", "max"][k % 2], 0.05, 0.95, 0.3)]
        for d in ds:
            d = json.loads(json.dumps(d)) if k % 2 else d; n = max((len(e["value"]) for e in d["run"]), default=0); ctx.state(case["kind"], k)
            for mode in MODES:
                for o in options(mode, n, k % 3 == 0):
                    if not judge(ctx, render, d, mode, o, what): return
