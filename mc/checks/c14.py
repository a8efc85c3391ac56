"""C14: maximal end components, for every structure and every shape of the randomised search trees."""
from common import *
import os, ctypes, functools

ASSUMPTIONS = ["the priorities of the treaps come from libc rand(), whose answers the harness dictates; if the code stops using rand(), the scripts have no effect and only the structures are enumerated",
               "for 3 states and more the answers of rand() are enumerated as all periodic sequences of small ranks instead of all sequences"]
CH = 400
RANKS3 = [p for p in itertools.product(range(3), repeat=3) if set(p) == set(range(len(set(p))))]      # the 13 weak orders of 3 things
SHORT = [(0,), (0, 1), (0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1, 0), (2, 0, 1)]

@functools.lru_cache(None)
def family(name, tier):
    k, n, kinds, ma, mt = name
    if k == "gen": return M.gen_structures(n, kinds, ma, mt)
    out = []
    for m in (2, 3, 5, 8, 17) + ((40, 80) if tier == "thorough" else ()):
        ring = [[[[(i + 1) % m, "1"]]] for i in range(m)]; out.append(ring)
        out.append([A + [[[(i + 2) % m, "1/2"], [i, "1/2"]]] for i, A in enumerate(ring)])
        out.append([A + [M.merge([[(i + m // 2) % m, "1/2"], [m - 1, "1/2"]])] for i, A in enumerate(ring)])
        out.append([[[[min(i + 1, m - 1), "1"]]] + ([[[max(i - 1, 0), "1"]]] if i % 3 else []) for i in range(m)])                        # broken line
        out.append([[M.merge([[min(i + 1, m - 1), "1/2"], [0, "1/2"]])] + ([[[i - 1, "1"]]] if i else []) for i in range(m)])
        out.append([[[[i ^ 1 if (i ^ 1) < m else i, "1"]], M.merge([[i ^ 1 if (i ^ 1) < m else i, "1/2"], [(i + 2) % m, "1/2"]])] for i in range(m)])   # pairs with leaks
        # nested: every removal of a state breaks the next component
        out.append([([[[i + 1, "1"]]] if i + 1 < m else []) + ([M.merge([[i - 1, "1/2"], [0, "1/2"]])] if i else []) + ([[[m - 1, "1"]]] if i == m - 1 else []) for i in range(m)])
    for m in (3, 4, 6, 9):           # states with many actions that stay there, alone or next to actions that leave
        loop = lambda s: [[[s, "1"]] for _ in range(m)]
        out += [[loop(0), loop(1)], [loop(0) + [[[1, "1"]]], loop(1)], [loop(0) + [[[1, "1/2"], [0, "1/2"]]], [[[0, "1"]]] + loop(1)], [[[[1, "1"]]] + loop(0), [[[2, "1"]]], loop(2)], [loop(0) + [[[2, "1"]]] * m, [[[0, "1"]]], [[[1, "1"]]]]]
    # one action with many successors, of which all or all but one lead back; a second action to the first leaf
    for m in (7, 12, 20, 40) + ((80, 300) if tier == "thorough" else ()):
        for j in range(0, m + 1) if m <= 40 else (0, 1, m // 2, m - 1, m):
            star = [[[[i + 1, str(F(1, m))] for i in range(m)]]] + [[[[0 if i != j else j + 1, "1"]]] for i in range(m)]
            out.append(star)
            if j % 3 == 0: out.append([star[0] + [[[1, "1"]]]] + star[1:])
            if j % 3 == 1: out.append([star[0] + [[[i + 1, "1"]] for i in range(m)]] + star[1:])
    for s in M.families(tier):
        n = len(s["a"]); out.append(s["a"] + [[M.dirac(n)], [M.dirac(n + 1)]])
    return [[[M.merge(d) for d in A] for A in a] for a in out]

FAMS = {"quick": [("gen", 1, "d", 1, 0), ("gen", 2, "dhe", 3, 0), ("gen", 3, "dh", 2, 0), ("gen", 3, "dhe", 1, 0), ("gen", 4, "dh", 1, 0), ("gen", 4, "d", 2, 0), ("gen", 3, "dh", 3, 5), ("fam", 0, "", 0, 0)]}
FAMS["thorough"] = [("gen", 1, "d", 1, 0), ("gen", 2, "dhe", 3, 0), ("gen", 3, "dh", 3, 0), ("gen", 3, "dhe", 1, 0), ("gen", 4, "dh", 1, 0), ("gen", 4, "d", 2, 0), ("gen", 4, "dh", 2, 6), ("gen", 5, "d", 2, 7), ("fam", 0, "", 0, 0)]

def cases(tier):
    out = []
    for f in FAMS[tier]:
        n = len(family(f, tier)); c = 5 if f[0] == "fam" else CH
        out += [dict(fam=list(f), lo=i, hi=min(i + c, n), tier=tier) for i in range(0, n, c)]
    n = len(rf_family(tier))
    return [dict(fam="deep", n=120000 if tier == "quick" else 1000000, step=x, tier=tier) for x in (1, -1, 7)] + out + [dict(fam="rf", lo=i, hi=min(i + 100, n), tier=tier) for i in range(0, n, 100)]

def rf_family(tier): return M.rf_enum(1, "dhe") + M.rf_enum(2, "dh", 2) + M.rf_enum(2, "dhe", 1) + M.rf_dtmcs(3, "dh") + (M.rf_enum(3, "dh", 2, 5) if tier == "thorough" else M.rf_enum(3, "d", 2)) + M.families(tier)

def check_rf(case, ctx):
    """the same information through a reachability form"""
    fam = rf_family(case["tier"])
    for k in range(case["lo"], case["hi"]):
        spec = fam[k]; n = len(spec["a"]); ps = M.presentations(n); b = M.Built(spec, ps[k % len(ps)]); ctx.state("rf", str(spec["a"]))
        script(SHORT[k % len(SHORT)]); rf = b.rf(); ctx.trace()
        comp, proper = ref.mecs([[set(M.succs(d)) for d in A] for A in spec["a"] + [[M.dirac(n)], [M.dirac(n + 1)]]])
        where = "reachability form %s, presentation %s: " % (spec["a"], b.pres)
        for s in range(n):
            ctx.op()
            if bool(rf.in_proper_ec(b.S[s])) != proper[s]: return ctx.fail(where + "in_proper_ec(%d) = %s" % (b.S[s], rf.in_proper_ec(b.S[s])))
        cnt = len({comp[s] for s in range(n) if proper[s]})
        if int(rf.nr_of_proper_mecs) != cnt: return ctx.fail(where + "%s proper end components, expected %d" % (rf.nr_of_proper_mecs, cnt))
        k = len({comp[s] for s in range(n)})
        if int(rf.nr_of_mecs) != k: return ctx.fail(where + "%s components apart from goal and fail, expected %d" % (rf.nr_of_mecs, k))
        mec = [int(x) for x in rf.state_to_mec]
        if len(mec) != n or any((mec[b.S[s]] == mec[b.S[u]]) != (comp[s] == comp[u]) for s in range(n) for u in range(n)): return ctx.fail(where + "state_to_mec = %s" % mec)
        if any(bool(rf.proper_mecs[mec[b.S[s]]]) != proper[s] for s in range(n)): return ctx.fail(where + "proper_mecs = %s" % list(rf.proper_mecs))
        if bool(rf.is_ec_free) != (cnt == 0): return ctx.fail(where + "is_ec_free = %s" % rf.is_ec_free)
        ctx.outcome("rf", n, cnt)
    script([])

def bounds(tier):
    return "rings of %d states; " % (120000 if tier == "quick" else 1000000) + "structures over Dirac and 1/2-1/2 distributions (<=2 states and 3 states with one action each also over 1e-9 and the rest): <=2 states all (all action sets of size <=3), 3 states %s, 4 states with one action each all, 4 states with <=2 Dirac actions each all%s, plus states with up to 9 actions that stay there, a state with an action of up to %d successors of which any one may not lead back (alone, next to one other action and next to one action per successor), rings, lines, nested components and grids with up to %d states; x rand() answers: all binary answer sequences for <=2 states (up to 8 calls), all 13 weak orders of 3 ranks repeated for 3 states, 5 patterns otherwise; x numberings in turn; each query twice; in_proper_ec and is_ec_free of the reachability forms with <=2 states, 3-state DTMCs, %s and the families" % (
        ("with <=3 actions each all", ", 4 states with <=6 actions in all, 5 states with <=7 Dirac actions in all", 300, 80, "3-state forms with <=5 actions") if tier == "thorough" else ("with <=2 actions each or <=5 in all", "", 40, 26, "3-state Dirac forms"))

_lib = None
def script(seq):
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["MC_SHIM"]); _lib.mc_rand_calls.restype = ctypes.c_long
    buf = (ctypes.c_int * max(1, len(seq)))(*[x * 1000003 + 5 for x in seq]); script.buf = buf
    _lib.mc_rand_script(buf, ctypes.c_long(len(seq)))

def calls(): return _lib.mc_rand_calls()

def expected(spec, b):
    comp, proper = ref.mecs([[set(M.succs(d)) for d in A] for A in spec["a"]]); n = len(comp)
    inv = {b.S[s]: s for s in range(n)}
    return comp, proper, inv

def check_deep(case, ctx):
    """a ring with long paths, with and without a second action that leaves it half of the time"""
    import numpy as np, scipy.sparse as sp
    from switss.model import DTMC, MDP
    n, st = case["n"], case["step"]; i = np.arange(n); ctx.state("deep", n, st)
    x = 12345; seq = []
    for _ in range(99991): x = (x * 1103515245 + 12345) % (1 << 31); seq.append(x >> 11)       # search trees of ordinary shape: depth is a question of the graph here
    script(seq)
    P = sp.vstack([sp.coo_matrix((np.ones(n), (i, (i + st) % n)), shape=(n, n + 1)), sp.coo_matrix(([.5, .5, 1.], ([0, 0, 1], [0, n, n])), shape=(2, n + 1))])
    isa = {(int(s), 0): int(s) for s in i}; isa[(n // 2, 1)] = n; isa[(n, 0)] = n + 1
    m = MDP(P, isa); ctx.trace(); ids, prop, cnt = m.maximal_end_components(); ctx.op(); script([])
    ids = [int(v) for v in ids]
    if cnt != 2 or len(set(ids[:n])) != 1 or ids[n] == ids[0] or not all(prop): return ctx.fail("a ring of %d states and an absorbing state: %d components, %s proper" % (n, cnt, list(prop)[:5]))
    ctx.outcome("deep", n, cnt)

def check(case, ctx):
    if case["fam"] == "deep": return check_deep(case, ctx)
    if case["fam"] == "rf": return check_rf(case, ctx)
    fam = family(tuple(case["fam"]), case["tier"]); presl = {}
    for k in range(case["lo"], case["hi"]):
        a = fam[k]; n = len(a); dt = all(len(A) == 1 for A in a)
        spec = M.gen_spec(a, 0, [0], "dtmc" if dt and k % 2 else "mdp")
        ps = presl.setdefault(n, M.presentations(n)); p = ps[k % len(ps)]
        b = M.Built(spec, p); m = b.model(); comp, proper, inv = expected(spec, b)
        ctx.state(str(a))
        def one(what):
            ids, prop, cnt = m.maximal_end_components(); ctx.op()
            ids = [int(x) for x in ids]; where = "structure %s, presentation %s, %s: " % (a, p, what)
            if len(ids) != n: return ctx.fail(where + "%d entries for %d states" % (len(ids), n))
            if sorted(set(ids)) != list(range(cnt)): return ctx.fail(where + "indices %s with count %s" % (ids, cnt))
            if len(prop) != cnt: return ctx.fail(where + "properness for %d of %d components" % (len(prop), cnt))
            for i in range(n):
                for j in range(n):
                    if (ids[i] == ids[j]) != (comp[inv[i]] == comp[inv[j]]): return ctx.fail(where + "states %d and %d: %s, components %s" % (i, j, ids, comp))
                if bool(prop[ids[i]]) != proper[inv[i]]: return ctx.fail(where + "component of state %d reported proper=%s" % (i, prop[ids[i]]))
            return (tuple(ids), tuple(int(x) for x in prop), cnt)
        if n <= 2:
            # depth-first through the answers of rand(): 0/1 at each of the first 8 calls
            script([0]); r = one("rand() always 0"); ctx.trace()
            if r is None: return
            d = min(8, calls())
            scripts = list(itertools.product((0, 1), repeat=d))
        elif n == 3: scripts = RANKS3
        else: scripts = SHORT
        for s in scripts:
            script(s); r = one("rand() answers %s" % (s,)); ctx.trace()
            if r is None: return
        r2 = one("second call")
        if r2 is None: return
        ctx.outcome(n, r2[2], sum(r2[1])); ctx.note("max rand() calls", 0)
        # a second model in between must not matter
        if k % 16 == 0:
            M.Built(spec, ps[(k + 1) % len(ps)]).model().maximal_end_components()
            if one("after a query on another model") is None: return
    script([])
