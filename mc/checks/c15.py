"""C15: graph queries against the reference matrix."""
from common import *
import functools

ASSUMPTIONS = []
CH = 60
FAMS = {"quick": [("gen", 1, "d", 1, 0), ("gen", 2, "dhtne", 2, 0), ("gen", 2, "dhtn", 3, 0), ("gen", 3, "dhn", 2, 0), ("gen", 4, "d", 2, 6), ("gen", 4, "dhn", 1, 0)]}
FAMS["thorough"] = FAMS["quick"] + [("gen", 3, "dhtn", 2, 0), ("gen", 4, "dh", 2, 5), ("gen", 5, "d", 1, 0), ("gen", 4, "d", 2, 0)]

@functools.lru_cache(None)
def family(f):
    if f[0] == "gen": return M.gen_structures(*f[1:])
    out = []
    for m in (6, 9, 16, 33, 70):
        out.append([[[[(i + 1) % m, "1"]]] for i in range(m)])
        out.append([[M.merge([[min(i + 1, m - 1), "1/2"], [max(i - 1, 0), "1/2"]])] for i in range(m)])
        out.append([[[[min(i + 1, m - 1), "1"]], [[(i * i) % m, "1"]]] for i in range(m)])
        out.append([[[[j, str(F(1, m))] for j in range(m)]] if i == 0 else [[[max(0, i - 2), "1"]]] for i in range(m)])
        out.append([[[[j, "1"]] for j in range(min(m, 7) if m < 30 else m - 9)] if i == m // 2 else [[[(i + 1) % m, "1"]]] for i in range(m)])
    for s in M.families():
        n = len(s["a"]); out.append(s["a"] + [[M.dirac(n)], [M.dirac(n + 1)]])
    return [[[M.merge(d) for d in A] for A in a] for a in out]

def cases(tier):
    out = []
    for f in FAMS[tier] + [("fam", 0)]:
        n = len(family(f)); c = 2 if f[0] == "fam" else CH
        out += [dict(fam=list(f), lo=i, hi=min(i + c, n)) for i in range(0, n, c)]
    return [dict(fam="deep", shape=x, n=150000 if tier == "quick" else 1000000) for x in ("line", "enil", "ring", "back")] + out

def deep(case, ctx):
    """long paths: state i goes to i+1 (line, ring, back: the last one to 0 or to the middle) or to i-1 (enil)"""
    import numpy as np, scipy.sparse as sp
    from switss.model import DTMC, MDP
    n, x = case["n"], case["shape"]; i = np.arange(n)
    to = {"line": np.minimum(i + 1, n - 1), "enil": np.maximum(i - 1, 0), "ring": (i + 1) % n, "back": np.where(i + 1 < n, i + 1, n // 2)}[x]
    m = DTMC(sp.coo_matrix((np.ones(n), (i, to)), shape=(n, n))); ctx.trace(); ctx.state(x, n)
    sc, cnt = m.strongly_connected_components(); ctx.op(); sc = np.array([int(v) for v in sc])
    want = {"line": n, "enil": n, "ring": 1, "back": n // 2 + 1}[x]
    if cnt != want or len(set(sc.tolist())) != want or x == "back" and len(set(sc[n // 2:].tolist())) != 1: return ctx.fail("%d states in a %s: %d SCCs, expected %d" % (n, x, cnt, want))
    for s in (0, n // 3, n - 1):
        for d in ("forward", "backward"):
            got = m.reachable_mask({s}, d); ctx.op()
            up = i >= s; dn = i <= s; c = i >= n // 2
            R = {"line": {"forward": up, "backward": dn}, "enil": {"forward": dn, "backward": up}, "ring": {"forward": i >= 0, "backward": i >= 0},
                 "back": {"forward": up | c if s < n // 2 else c, "backward": dn if s < n // 2 else i >= 0}}[x][d]
            if any(np.asarray(got, dtype=bool) != R): return ctx.fail("%d states in a %s: reachable_mask({%d}, %s)" % (n, x, s, d))
    ctx.outcome("deep", x, int(cnt))

def bounds(tier):
    return "lines and rings of %d states; all" % (150000 if tier == "quick" else 1000000) + "  structures with <=2 states (<=3 actions, Dirac, 1/2-1/2, 1/3-2/3, 0.1-0.2-0.7; <=2 actions also with 1e-9 and the rest), 3 states with <=2 actions each, 4 states with one action each or <=6 Dirac actions in all, %sfamilies with <=70 states (up to 61 actions at a state, 70 successors of an action); all from-sets x all blocklists x both directions for <=3 states, from-sets of size <=2 x blocklists of size <=1 otherwise; numberings, row orders, action numbers and matrix formats (also with explicit zeros) in turn" % (
        "4 states with <=5 actions in all, 5 Dirac states, " if tier == "thorough" else "")

def with_zeros(P):
    """the matrix with explicitly stored zeros around its entries"""
    import scipy.sparse as sp
    C, N = P.shape; e = [(r, c, p) for (r, c), p in P.items()]; z = [(r, (c + 1) % N, 0.0) for r, c, _ in e] + [(r, 0, 0.0) for r in range(C)] ; have = {(r, c) for r, c, _ in e}; seen = set()
    z = [t for t in z if (t[0], t[1]) not in have and not ((t[0], t[1]) in seen or seen.add((t[0], t[1])))]; e = sorted(e + z)
    Q = sp.coo_matrix(([x[2] for x in e], ([x[0] for x in e], [x[1] for x in e])), shape=(C, N)).todok()
    return Q

def check(case, ctx):
    if case["fam"] == "deep": return deep(case, ctx)
    fam = family(tuple(case["fam"])); presl = {}
    for k in range(case["lo"], case["hi"]):
        a = fam[k]; n = len(a)
        spec = M.gen_spec(a, 0, [0], "dtmc" if all(len(A) == 1 for A in a) and k % 3 else "mdp")
        ps = presl.setdefault(n, M.presentations(n)); p = ps[k % len(ps)]
        b = M.Built(spec, p); m = b.model(); ctx.state(str(a)); ctx.trace()
        tr = M.spec_triples(b); where = "structure %s, presentation %s: " % (a, p)
        from switss.utils import Graph
        g = Graph(m.P if k % 2 else with_zeros(m.P), m.index_by_state_action); acts = {}
        for (s, x, t) in tr: acts.setdefault(s, set()).add(x)
        fw = {s: set() for s in range(n)}; bw = {s: set() for s in range(n)}
        for (s, x, t) in tr: fw[s].add(t); bw[t].add(s)
        for rnd in range(2):
            for s in range(n):
                got = sorted((int(d), int(x), float(q)) for d, x, q in m.successors(s)); ctx.op()
                want = sorted((t, x, q) for (u, x, t), q in tr.items() if u == s)
                if got != want: return ctx.fail(where + "successors(%d) = %s, expected %s" % (s, got, want))
                got = sorted((int(d), int(x), float(q)) for d, x, q in m.predecessors(s)); ctx.op()
                want = sorted((u, x, q) for (u, x, t), q in tr.items() if t == s)
                if got != want: return ctx.fail(where + "predecessors(%d) = %s, expected %s" % (s, got, want))
                for x in sorted(acts[s]) + [97]:                 # the graph itself, restricted to one action
                    got = sorted((int(d), int(y), float(q)) for d, y, q in g.successors(s, x)); ctx.op()
                    want = sorted((t, y, q) for (u, y, t), q in tr.items() if u == s and y == x)
                    if got != want: return ctx.fail(where + "Graph.successors(%d, %d) = %s, expected %s" % (s, x, got, want))
                for x in range(max(map(len, acts.values())) + 1) if n <= 6 else (0,):
                    got = sorted((int(d), int(y), float(q)) for d, y, q in g.predecessors(s, x)); ctx.op()
                    want = sorted((u, y, q) for (u, y, t), q in tr.items() if t == s and y == x)
                    if got != want: return ctx.fail(where + "Graph.predecessors(%d, %d) = %s, expected %s" % (s, x, got, want))
                got = sorted(m.actions_by_state[s]); ctx.op()
                if got != sorted(acts[s]): return ctx.fail(where + "actions_by_state[%d] = %s, expected %s" % (s, got, sorted(acts[s])))
            if rnd == 0:
                if n <= 3: froms = list(M.nonempty_subsets(range(n))); blocks = [()] + froms
                elif n <= 6: froms = [f for f in M.nonempty_subsets(range(n)) if len(f) <= 2]; blocks = [()] + [(s,) for s in range(n)]
                else: froms = [(s,) for s in range(n)] + [(0, n - 1)]; blocks = [()] + [(s,) for s in range(0, n, max(1, n // 4))]
                for f in froms:
                    for bl in blocks:
                        for d, e in (("forward", fw), ("backward", bw)):
                            args = (set(f), d) if not bl and len(f) % 2 else (set(f), d, set(bl))
                            got = [bool(x) for x in m.reachable_mask(*args)]; ctx.op()
                            R = ref.reach(e, f, bl)
                            if len(got) != n or any(got[s] != (s in R) for s in range(n)):
                                return ctx.fail(where + "reachable_mask%s = %s, expected %s" % (args, got, sorted(R)))
                    ctx.outcome(n, len(R))
                sc, cnt = m.strongly_connected_components(); ctx.op(); sc = [int(x) for x in sc]
                want = ref.sccs(n, fw)
                if len(sc) != n or sorted(set(sc)) != list(range(cnt)): return ctx.fail(where + "SCC indices %s, count %s" % (sc, cnt))
                if any((sc[i] == sc[j]) != (want[i] == want[j]) for i in range(n) for j in range(n)): return ctx.fail(where + "SCCs %s, expected %s" % (sc, want))
