"""C28: TreeAlgo (switss/utils/tree_decomp.pyx, compiled from the current sources) against brute force over all subsystems, for
every directed tree partition, every order in which the partition may be processed, and several known upper bounds."""
from common import *
import os, sys, shutil, subprocess, collections

LEVEL_NOTE = "graph_tool, dd and more_itertools are not installed: modules with the documented interface of the few functions that are used (mc/fakes/treelib) take their place; the module under test is compiled from the current sources. That the real libraries behave as documented is trusted. Complete within the stated bounds."
ASSUMPTIONS = ["graph_tool, dd and more_itertools behave as documented", "thresholds are representatives (midpoints) of every interval between the values of subsystems, plus one above the largest; with a given upper bound also the exact values",
               "the threshold is positive, and a given upper bound is at least the minimum"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def setup(scratch):
    import numpy
    src = next(p for p in sys.path if os.path.isdir(os.path.join(p, "switss", "utils")))
    dst = os.path.join(scratch, "c28"); os.makedirs(dst)
    shutil.copytree(os.path.join(src, "switss"), os.path.join(dst, "switss"), ignore=shutil.ignore_patterns("__pycache__", "tree_decomp*.so", "tree_decomp*.c"))
    open(os.path.join(dst, "b.py"), "w").write("""import numpy
from setuptools import setup, Extension
from Cython.Build import cythonize
setup(name="x", ext_modules=cythonize([Extension("switss.utils.tree_decomp", ["switss/utils/tree_decomp.pyx"], include_dirs=[numpy.get_include()])], language_level=3), script_args=["build_ext", "--inplace"])
""")
    r = subprocess.run([sys.executable, "-W", "ignore", "b.py"], cwd=dst, env=dict(os.environ, CFLAGS=os.environ.get("MC_CFLAGS", "-O1 -g0")), capture_output=True, text=True)
    if r.returncode: sys.stderr.write((r.stdout + r.stderr)[-3000:]); raise SystemExit("tree_decomp.pyx does not build")
    for m in [m for m in sys.modules if m == "switss" or m.startswith("switss.")]: del sys.modules[m]
    sys.path[:0] = [os.path.join(HERE, "fakes", "treelib"), dst]
    for m in ("graph_tool", "graph_tool.all", "dd", "dd.cudd", "more_itertools"):
        if m in sys.modules: del sys.modules[m]

def partitions(xs):
    xs = list(xs)
    if not xs: yield []; return
    for p in partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)): yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]

def is_tree(a, part):
    """the quotient is a directed tree with the block of the initial state as root"""
    n = len(a); bl = {s: k for k, b in enumerate(part) for s in b}
    E = {(bl[s], bl[t]) for s in range(n) for d in a[s] for t in M.succs(d) if t < n and bl[s] != bl[t]}
    ins = collections.Counter(t for s, t in E)
    return all(ins[k] == (0 if k == bl[0] else 1) for k in range(len(part)))

def ladder(layers, width):
    """layers of states, each moving to two states of the next one: every layer is a block with several inputs"""
    n = 1 + layers * width; a = [[[[1 + j, str(F(j + 1, width * (width + 1) // 2))] for j in range(width)]]]
    for l in range(layers):
        for j in range(width):
            p = F(j + 2, width + 3 + l)
            if l + 1 < layers:
                x, y = 1 + (l + 1) * width + j, 1 + (l + 1) * width + (j + 1) % width
                a.append([M.merge([[x, str(p)], [y, str((1 - p) * F(3, 4))], [n + 1, str((1 - p) / 4)]])])
            else: a.append([[[n, str(p)], [n + 1, str(1 - p)]]])
    return M.rf_spec(a, "dtmc")

def blocks_by(f, n):
    m = {}
    for s in range(n): m.setdefault(f(s), []).append(s)
    return list(m.values())

def structured(tier):
    th = tier == "thorough"; out = []
    for k, p in ((5, "9/10"), (7, "9/10"), (6, "1/2")) + (((9, "4/5"),) if th else ()):
        for cut in itertools.product((0, 1), repeat=k - 1):
            ids = [sum(cut[:s]) for s in range(k)]; out.append((M.chain(k, p, False), blocks_by(lambda s: ids[s], k)))
    d = lambda s: (s + 1).bit_length() - 1
    for depth in (2, 3) if th else (2,):
        n = 2 ** (depth + 1) - 1
        def anc(s, l):
            while d(s) > l: s = (s - 1) // 2
            return s
        for l in range(depth + 1): out.append((M.btree(depth), blocks_by(lambda s: 0 if d(s) < l else anc(s, l), n)))       # subtrees
        if depth == 2 or th: out.append((M.btree(depth), [[s] for s in range(n)]))
        for l in range(1, depth + 1): out.append((M.btree(depth), blocks_by(lambda s: min(d(s), l), n)))                  # layers: many inputs
    for l, w in ((1, 2), (2, 2), (3, 2), (1, 3), (2, 3)) + (((4, 2), (1, 4)) if th else ()):
        s = ladder(l, w); n = len(s["a"])
        for cut in itertools.product((0, 1), repeat=l):
            ids = [sum(cut[:i]) for i in range(l + 1)]; out.append((s, blocks_by(lambda x: ids[0 if x == 0 else 1 + (x - 1) // w], n)))
    for k in (3, 5): out.append((M.birthdeath(k), [list(range(k))]))
    for q in ("1/2000", "1/20000"):
        s = M.faint(q); out += [(s, p) for p in partitions(range(3))]
    # probabilities that make a difference of 1e-6 to 1e-9 only, for blocks with one and with two inputs
    for q in ("1/1000000", "1/10000000") + (("1/100000000",) if th else ()):
        s = M.faint(q); s["eps"] = "1/" + "1" + "0" * 10; s["tiny"] = 1; out += [(s, p) for p in partitions(range(3))]
        r = str(1 - F(q) - F(1, 2))
        s = M.rf_spec([[[[1, "1/3"], [2, "1/3"], [4, "1/3"]]], [[[3, q], [4, "1/2"], [5, r]]], [[[3, q], [4, "1/2"], [5, r]]], [[[4, "1/2"], [5, "1/2"]]]], "dtmc", eps="1/" + "1" + "0" * 10); s["tiny"] = 1
        out += [(s, p) for p in partitions(range(4))]
    # a state with many blocks below it
    for k in (4, 6):
        s = M.rf_spec([[[[i + 1, str(F(1, k))] for i in range(k)]]] + [[[[k + 1, str(F(i + 1, k + 1))], [k + 2, str(F(k - i, k + 1))]]] for i in range(k)], "dtmc")
        out += [(s, [[x] for x in range(k + 1)]), (s, [[0, 1], [k, 2]] + [[x] for x in range(3, k)]), (s, [[0, k]] + [[x] for x in range(1, k)])]
    return [(s, p) for s, p in out if is_tree(s["a"], p) and max(map(len, p)) <= 9 and len(p) <= 7]

def distances(a):
    """of the states from the initial one"""
    dist = {0: 0}; q = [0]
    for s in q:
        for t in M.succs(a[s][0]):
            if t < len(a) and t not in dist: dist[t] = dist[s] + 1; q.append(t)
    return dist

def uneven(tier):
    """models with 4 states and a partition with a block whose inputs have different distances from the initial state"""
    for s in M.rf_dtmcs(4, "dh"):
        a = s["a"]; dist = distances(a)
        for part in partitions(range(4)):
            if len(part) == 1 or not is_tree(a, part): continue
            bl = {x: k for k, b in enumerate(part) for x in b}; ins = {t for x in range(4) for t in M.succs(a[x][0]) if t < 4 and bl[x] != bl[t]}
            if any(len({dist[x] for x in b if x in ins}) > 1 for b in part): yield s, part

def cases(tier):
    th = tier == "thorough"
    small = M.rf_dtmcs(1, "dhtn") + M.rf_dtmcs(2, "dht") + M.rf_dtmcs(3, "dh") + (M.rf_dtmcs(3, "dhn") + M.rf_dtmcs(4, "dh") if th else [])
    out = [dict(c, k="all") for c in rf_cases(small)] 
    for i, (s, p) in enumerate(structured(tier)):
        ps = M.simple_presentations(len(s["a"])); out.append(dict(spec=s, pres=ps[i % len(ps)], part=p, k="one"))
    for s, p in uneven(tier):
        for sp in ([0, 1, 2, 3], [0, 3, 2, 1], [2, 1, 3, 0]): out.append(dict(spec=s, pres=dict(M.std(4), sp=sp), part=p, k="one"))
    return out

def bounds(tier):
    return "all DTMC reachability forms with 1 transient state (Dirac, half, third, 0.1-0.2-0.7 rows), 2 states (Dirac, half, third) and 3 states (Dirac, half%s) with every directed tree partition; all with 4 states (Dirac, half) and every partition that has a block with inputs at different distances from the initial state, in 3 numberings; chains with all partitions into consecutive blocks, binary trees with subtrees, single states and layers as blocks, layered chains with 2 and 3 inputs per block; numberings, row orders and matrix formats in turn; blocks in two orders, all topological orders of the quotient (6 for larger models); thresholds in every interval between values of subsystems and at them; models with probabilities of 5e-4 and 5e-5, and (given an upper bound) of 1e-6 and less; a state with 4 and 6 blocks below it; known upper bound: none (QSHeur), number of states, the minimum" % (", 0.1-0.2-0.7; 4 states Dirac, half" if tier == "thorough" else "")

def check(case, ctx):
    from switss.problem import TreeAlgo
    import graph_tool.all as gt
    spec = case["spec"]; a = spec["a"]; n = len(a); b = M.Built(spec, case["pres"]); rf = b.rf(); ctx.state(str(a), str(case["pres"]))
    vals = ref.subset_values(spec, "max"); top = max(vals.values())
    parts = [p for p in partitions(range(n)) if is_tree(a, p)] if case["k"] == "all" else [case["part"]]
    mids = [t for t in ref.thresholds(vals.values(), 1) if t > 0]; exact = sorted({v for v in vals.values() if v > 0})
    if len(mids) > 12: mids = mids[::len(mids) // 6] + mids[-2:]
    if len(exact) > 8: exact = exact[::len(exact) // 4] + exact[-2:]
    for i, part in enumerate(parts):
        for thr, kind in [(t, "mid") for t in mids] + [(t, "exact") for t in exact]:
            if kind == "mid" and min(abs(v - thr) for v in vals.values()) < F(spec.get("eps", "1/10000")): continue
            ok = [len(s) for s, v in vals.items() if v >= thr]
            runs = [(n, part), ((min(ok) if ok else n), part[::-1])]
            if "tiny" not in spec and kind == "mid" and i == (len(parts) - 1) * (mids.index(thr) % 2): runs.append((None, part))
            for ub, p in runs:
                blocks = [[b.S[s] for s in (bl if p is part else bl[::-1])] for bl in p]; gt.ORDER["choice"] = 0; gt.ORDER["count"] = 1; k = 0
                while k < min(24 if n <= 4 else 6, gt.ORDER["count"]):
                    gt.ORDER["choice"] = k; k += 1
                    what = "partition %s, threshold %s (%s), upper bound %s, order %d: " % (p, float(thr), kind, ub, k)
                    r = TreeAlgo(blocks, known_upper_bound=ub).solve(rf, float(thr), "max"); ctx.op(); ctx.trace()
                    if not ok:
                        ctx.outcome("infeasible")
                        if r.status != "infeasible": return ctx.fail(what + "%s %s although no subsystem reaches the threshold" % (r.status, r.value))
                        continue
                    ctx.outcome("success", min(ok), len(part))
                    if r.status != "success": return ctx.fail(what + "status %s, the minimum is %d" % (r.status, min(ok)))
                    if abs(r.value - min(ok)) > 1e-9: return ctx.fail(what + "value %s, the minimum is %d" % (r.value, min(ok)))
                    if ub is None: break
