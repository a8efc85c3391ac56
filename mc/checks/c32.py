"""C32: switss.utils.graph_utils: graph of a matrix, quotient by a partition, interface between two sets of states."""
from common import *
import os, sys

TECHNIQUE = "explicit enumeration of all directed graphs and all partitions up to a bound, with the real functions compared with the definitions"
LEVEL_NOTE = "graph_tool is not installed: a module with the documented interface of the functions that are used (mc/fakes/treelib) takes its place; that the real library behaves as documented is trusted. Complete within the stated bounds."
ASSUMPTIONS = ["graph_tool behaves as documented", "the partition covers all states; matrices are square (transition matrices of Markov chains)"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def setup(scratch):
    for m in [m for m in sys.modules if m == "switss" or m.startswith("switss.") or m.split(".")[0] in ("graph_tool", "dd", "more_itertools")]: del sys.modules[m]
    sys.path.insert(0, os.path.join(HERE, "fakes", "treelib"))

def partitions(xs):
    xs = list(xs)
    if not xs: yield []; return
    for p in partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)): yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]

CH = 64
def rows(n, deg): return [c for j in range(deg + 1) for c in itertools.combinations(range(n), j)]

def graphs(n, deg):
    return list(itertools.product(rows(n, deg), repeat=n))

FAM = {"quick": [(1, 1), (2, 2), (3, 3), (4, 1), (5, 1)], "thorough": [(1, 1), (2, 2), (3, 3), (4, 2), (5, 1)]}
def cases(tier):
    out = []
    for n, d in FAM[tier]:
        total = len(rows(n, d)) ** n; ch = CH if n < 5 else 256
        out += [dict(kind="graph", n=n, deg=d, lo=lo, hi=min(total, lo + ch)) for lo in range(0, total, ch)]
    out += [dict(kind="rf", spec=s) for s in M.rf_dtmcs(1, "dhtn") + M.rf_dtmcs(2, "dht") + M.rf_dtmcs(3, "dh")[::1 if tier == "thorough" else 5]]
    out += [dict(kind="big", m=m, t=t) for m in (2, 7) + ((45,) if tier == "thorough" else ()) for t in ("dtmc", "mdp")]
    return out

def bounds(tier):
    return "all directed graphs with 1-3 vertices, all with 4 vertices and at most %s outgoing edges per vertex (explicitly stored zero entries, parallel entries in every storage order), all with 5 vertices and at most one; all partitions with the blocks and their members in two orders, as lists, tuples or sets; all pairs of subsets (5 vertices: pairs of blocks) for the interface; the matrices of DTMC reachability forms with 1-3 transient states; the graphs of block structures with 13 and 43 vertices (thorough: 271) with partitions into 1 to as many blocks, pairs of blocks and larger sets for the interface" % ("two" if tier == "thorough" else "one")

def nth(n, deg, i):
    R = rows(n, deg); g = []
    for _ in range(n): g.append(R[i % len(R)]); i //= len(R)
    return g

def check(case, ctx):
    import numpy as np
    from scipy.sparse import dok_matrix
    from switss.utils import graph_utils as U
    if case["kind"] == "rf":
        b = M.Built(case["spec"]); P = b.rf().P.todok(); return one(ctx, U, P, 0)
    if case["kind"] == "big": return big(ctx, U, M.blocks(case["m"], t=case["t"])["a"])
    n = case["n"]
    for i in range(case["lo"], case["hi"]):
        g = nth(n, case["deg"], i); E = [(s, t) for s in range(n) for t in g[s]]; E = E[::-1] if i % 2 else E
        P = dok_matrix((n, n))
        for k, (s, t) in enumerate(E): P[s, t] = (k + 1) / (2 * len(E) + 1)
        if i % 3 == 0:                                              # a stored zero
            z = next(((s, t) for s in range(n) for t in range(n) if t not in g[s]), None)
            if z:
                P[z] = 1
                try: P._dict[z] = 0.0
                except AttributeError: del P[z]
        if one(ctx, U, P, i) is False: return

def one(ctx, U, P, i):
    n = P.shape[0]; D = P.toarray(); E = {(s, t) for s in range(n) for t in range(n) if D[s, t] != 0}; what = "edges %s: " % sorted(E); ctx.state(n, str(sorted(E)))
    bad = lambda m: ctx.fail(what + m) and False or False
    keep = dict(P.items()); G = U.underlying_graph(P); ctx.op()
    got = [(int(e.source()), int(e.target())) for e in G.edges()]
    if G.num_vertices() != n or sorted(got) != sorted(E): return bad("underlying_graph has %d vertices and edges %s" % (G.num_vertices(), sorted(got)))
    for j, part in enumerate(partitions(range(n))):
        bl = [list(b) for b in part]
        if (i + j) % 2: bl = [b[::-1] for b in bl[::-1]]
        bl = [(list, tuple, set)[(i + j + k) % 3](b) for k, b in enumerate(bl)]; show = [list(b) for b in bl]
        arg = bl if j % 2 else tuple(bl)
        Q, lab, itf = U.quotient(G, arg); ctx.op(); ctx.trace(); w = "partition %s: " % show
        idx = {s: k for k, b in enumerate(show) for s in b}; QE = {(idx[s], idx[t]) for s, t in E if idx[s] != idx[t]}
        if [list(b) for b in bl] != show: return bad(w + "the partition is modified")
        if Q.num_vertices() != len(bl): return bad(w + "the quotient has %d vertices" % Q.num_vertices())
        q = sorted((int(e.source()), int(e.target())) for e in Q.edges())
        if q != sorted(QE): return bad(w + "the quotient has edges %s, expected %s" % (q, sorted(QE)))
        if [lab[G.vertex(s)] for s in range(n)] != [idx[s] for s in range(n)]: return bad(w + "labeling %s" % [lab[G.vertex(s)] for s in range(n)])
        want = [any(t == s and idx[r] != idx[s] for r, t in E) for s in range(n)]
        if [bool(itf[G.vertex(s)]) for s in range(n)] != want: return bad(w + "interface states %s, expected %s" % ([s for s in range(n) if itf[G.vertex(s)]], [s for s in range(n) if want[s]]))
        ctx.outcome("quotient", len(bl), len(QE), sum(want))
        if n == 5 and len(bl) > 1 and (i + j) % 4 == 0:
            for A, B in itertools.permutations(bl, 2):
                if not inter(ctx, U, P, D, A, B, bad): return False
    if got != [(int(e.source()), int(e.target())) for e in G.edges()]: return bad("the graph is modified by quotient")
    if n < 5:
        subs = [c for j in range(n + 1) for c in itertools.combinations(range(n), j)]
        for k, (A, B) in enumerate(itertools.product(subs, repeat=2)):
            if not A or not B: continue                            # sparse matrices with an empty dimension depend on the scipy version
            t = (i + k) % 4; A2 = [list, tuple, set, frozenset][t](A[::-1] if t < 2 and k % 2 else A); B2 = [set, list, frozenset, tuple][t](B[::-1] if t in (1, 3) else B)
            if not inter(ctx, U, P, D, A2, B2, bad): return False
    if dict(P.items()) != keep: return bad("the matrix is modified")

def big(ctx, U, a):
    """larger graphs with one kind of partition after the other"""
    from scipy.sparse import dok_matrix
    n = len(a); P = dok_matrix((n + 2, n + 2)); N = n + 2; bad = lambda m: ctx.fail("block structure with %d states: " % n + m) and False or False
    for s, A in enumerate(a + [[M.dirac(n)], [M.dirac(n + 1)]]):
        for k, d in enumerate(A):
            for t, p in d: P[s, t] += float(M.fr(p)) / len(A)
    D = P.toarray(); E = {(s, t) for s in range(N) for t in range(N) if D[s, t] != 0}; G = U.underlying_graph(P); keep = dict(P.items())
    got = [(int(e.source()), int(e.target())) for e in G.edges()]
    if G.num_vertices() != N or sorted(got) != sorted(E): return bad("underlying_graph has %d vertices and %d edges" % (G.num_vertices(), len(got)))
    for k in (1, 2, 3, 7, 11, 12, 13, N // 2, N - 1, N):
        for f in (lambda s: s % k, lambda s: s * k // N, lambda s: (s * 5 + s // 3) % k):
            bl = [b for b in ([s for s in range(N) if f(s) == j] for j in range(k)) if b]; Q, lab, itf = U.quotient(G, [set(b) if j % 2 else b for j, b in enumerate(bl)]); ctx.op(); ctx.trace(); ctx.state(N, str(bl))
            idx = {s: j for j, b in enumerate(bl) for s in b}; QE = {(idx[s], idx[t]) for s, t in E if idx[s] != idx[t]}; w = "partition %s: " % bl
            if Q.num_vertices() != len(bl) or sorted((int(e.source()), int(e.target())) for e in Q.edges()) != sorted(QE): return bad(w + "the quotient differs")
            if [lab[G.vertex(s)] for s in range(N)] != [idx[s] for s in range(N)]: return bad(w + "the labeling differs")
            want = [any(t == s and idx[r] != idx[s] for r, t in E) for s in range(N)]
            if [bool(itf[G.vertex(s)]) for s in range(N)] != want: return bad(w + "the interface states differ")
            pairs = [(A, B) for A in bl[:3] for B in bl[-3:]] + [(range(N), bl[0]), (bl[-1], range(N)), (range(N), range(N))]
            for j, (A, B) in enumerate(pairs):
                T = (list, set, tuple)[j % 3]
                if not inter(ctx, U, P, D, T(A), T(B), bad): return False
            ctx.outcome("big", len(bl), sum(want))
    if dict(P.items()) != keep: return bad("the matrix is modified")

def inter(ctx, U, P, D, A, B, bad):
    X, m1, m2 = U.interface(A, B, P); ctx.op(); w = "interface of %s and %s: " % (sorted(A), sorted(B))
    if X.shape != (len(A), len(B)): return bad(w + "shape %s" % (X.shape,))
    for m, S in ((m1, A), (m2, B)):
        if set(m) != set(S) or sorted(m.values()) != list(range(len(S))): return bad(w + "numbering %s" % dict(m))
    X = X.toarray()
    for s in A:
        for t in B:
            if X[m1[s], m2[t]] != D[s, t]: return bad(w + "entry for (%s, %s) is %s, the matrix has %s" % (s, t, X[m1[s], m2[t]], D[s, t]))
    ctx.outcome("interface", len(A), len(B), int((X != 0).sum())); return True
