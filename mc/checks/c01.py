"""C01: min/max reachability probabilities before and after ReachabilityForm.reduce."""
from common import *
import json

ASSUMPTIONS = ["the reference probabilities are exact rationals from policy iteration (validated by mc/selftest.py against all memoryless policies)",
               "probabilities of the reduced form are computed exactly from its transition matrix; that pr_min/pr_max compute them is C04"]

def extra_rows():
    """rows whose float sum is not exactly 1, larger models, several targets"""
    q = "0.3333333333"
    out = [dict(a=[[[[1, q], [2, q], [3, q]]], [[[0, "1/2"], [2, "1/2"]], [[3, "1"]]], [[[2, "1"]]], [[[3, "1"]]]], t="mdp")]
    out.append(dict(a=[[[[0, "1/10"], [1, "1/5"], [2, "7/10"]]], [[[0, "7/10"], [1, "1/5"], [2, "1/10"]]], [[[2, "3/10"], [0, "6/10"], [3, "1/10"]]], [[[3, "1"]]]], t="dtmc"))
    out.append(dict(a=[[[[i, "1/6"] for i in range(6)]] for _ in range(5)] + [[[[5, "1"]]]], t="dtmc"))
    for k in (4, 6, 8):       # k states in a cycle with a shortcut and a trap
        a = [[[[(i + 1) % k, "2/5"], [(i + 2) % k, "3/5"]], [[(i * 3 + 1) % k, "1"]]] for i in range(k)]
        a[k - 1] = [[[k - 1, "1"]]]
        out.append(dict(a=a, t="mdp"))
        out.append(dict(a=[[A[0]] for A in a], t="dtmc"))
    return out

def blocks(m, ec, t):
    """the blocks of M.blocks as a general model: goal and fail are ordinary absorbing states, between them stands a state that nothing reaches"""
    s = M.blocks(m, ec, t); n = len(s["a"]); mv = {n: n + 1, n + 1: n + 2}
    a = [[[[mv.get(x, x), p] for x, p in d] for d in A] for A in s["a"]]
    return dict(a=a + [[[[0, M.H], [n + 1, M.H]]], [[[n + 1, "1"]]], [[[n + 2, "1"]]]], t=t)

def cases(tier, tiny=False):
    out = []
    def add(structs, t, allpres=False):
        for i, a in enumerate(structs):
            ps = pres_for(len(a), False)
            for p in (ps if allpres else [ps[i % len(ps)]]): out.append(dict(a=a, t=t, pres=p))
    add(M.gen_structures(1, "d", 1), "dtmc", True)
    add(M.gen_structures(2, "dht", 2), "mdp", True)
    add(M.gen_structures(2, "dht", 1), "dtmc", True)
    add(M.gen_structures(3, "dhn", 1), "dtmc", tier == "thorough")
    add(M.gen_structures(3, "dh", 2, 4), "mdp", tier == "thorough")
    few = [a for a in M.gen_structures(3, "de", 1) if sum(len(d) > 1 for A in a for d in A) == 1]
    add(few, "dtmc")
    if tiny:
        add(json.loads(json.dumps(few).replace("999999999/1000000000", "99999999999/100000000000").replace("1/1000000000", "1/100000000000")), "mdp")
        add([a for a in M.gen_structures(2, "dhe", 2) if any(p == "1/1000000000" for A in a for d in A for _, p in d)], "mdp")
    if tier == "thorough":
        add(M.gen_structures(3, "dh", 2, 6), "mdp"); add(M.gen_structures(4, "dh", 1), "dtmc"); add(M.gen_structures(3, "dtN", 1), "dtmc")
    for x in extra_rows():
        for p in pres_for(len(x["a"]), False): out.append(dict(x, pres=p))
    for x in [blocks(m, ec, t) for m in ((2, 7, 45) if tier == "quick" else (2, 3, 5, 7, 11, 20, 45, 60)) for ec, t in ((True, "mdp"), (False, "mdp"), (False, "dtmc"))]:
        for p in pres_for(len(x["a"]), False)[:2 if len(x["a"]) > 100 else 4]: out.append(dict(x, pres=p))
    return out

def bounds(tier):
    return ("all MDPs with 2 states and <=2 actions per state and all DTMCs with <=3 states over Dirac/half/third/0.1-0.2-0.7 rows, all MDPs with 3 states "
            "and <=%d actions in all over Dirac/half rows, each with every initial state, every target set and a presentation (state numbering, row order, "
            "action ids, matrix format; all covering presentations for 2 states); DTMCs with 3 states and one row of 1e-9 and the rest; plus %d larger hand-made structures and models of blocks with 16 to %d states" % (6 if tier == "thorough" else 4, len(extra_rows()), 274 if tier == "quick" else 364))

def label_sets(n):
    big = n > 3
    if n > 15:                # the models of blocks: the last two states but one, whole blocks or parts of them as targets
        for init in (0, 1, n - 9): yield init, [n - 2]
        for init in (0, 7): yield init, [5, 10, n - 2]
        yield 0, [n - 1]; yield n - 3, [8, n - 2]; return
    for init in range(n):
        for T in ([(0,), (n - 1,), (1, n - 1), (0, n // 2)] if big else M.nonempty_subsets(range(n))): yield init, sorted(set(T))

def check(case, ctx):
    from switss.model import ReachabilityForm
    n = len(case["a"])
    for init, T in label_sets(n):
        spec = M.gen_spec(case["a"], init, T, case["t"])
        keep, rows = ref.reduction(spec)
        if not keep: continue                           # no target can be reached: outside the claim
        b = M.Built(spec, case["pres"]); sys = b.model()
        ctx.state(str(case["a"]), init, tuple(T))
        rf, smap, amap = ReachabilityForm.reduce(sys, "init", "target"); ctx.op(); ctx.trace()
        r0 = ref.of_spec(spec); N = rf.system.N
        if not ctx.require(rf.initial in range(N - 2) and smap.get(b.S[init]) == rf.initial, "the initial state is not kept or mapped wrongly", init=init, T=T): return
        r1 = real_ref(rf.system, {N - 2})
        for mode, x, y in (("min", r0.prmin(), r1.prmin()), ("max", r0.prmax(), r1.prmax())):
            ctx.op()
            for s in range(n):
                if b.S[s] in smap:
                    if abs(float(x[s]) - float(y[smap[b.S[s]]])) > (1e-6 if "1/1000000000" in str(case["a"]) else 1e-8):    # a tiny probability magnifies the rounding of the others
                        ctx.fail("Pr^%s of state %d is %s before and %s after reduction" % (mode, s, float(x[s]), float(y[smap[b.S[s]]])), init=init, T=T); return
            ctx.outcome(mode, x[init], len(keep))
