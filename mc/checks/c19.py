"""C19: which matrices, rewards and action maps the constructors accept, and what accepted models expose."""
from common import *
import math

ASSUMPTIONS = ["row sums that deviate from 1 by between 2e-10 and 2e-9 are at the edge of the rounding tolerance and not judged", "action maps are always bijections onto the rows"]
V = [0.0, 1.0, 0.5, -0.5, 1.5, 1 / 3, 2 / 3, 0.5 + 1e-6, 0.5 - 1e-6, 0.5 + 1e-12, 0.5 + 3e-9, 0.5 - 3e-9, 0.5 + 1.5e-10, 1e-7, 1 - 1e-7, -1e-12, float("nan"), float("inf"), 2.0]
W = [0.0, 0.1, 0.2, 0.7, 0.5, 1 / 3, 1.0, -0.2, 0.3, 0.6, 0.9, 1e-6]
FMTS = ["list", "array", "matrix", "dok", "csr", "csc", "coo", "lil", "csr0", "bsr", "int"]
REW = [None, [0, 0], [1, 2], [0.5, 0], [-1, 0], [0, -1], [0, -1e-9], [1e9, 0.25]]

def cases(tier):
    out = [dict(kind="rows2", i=i, j=j) for i in range(len(V)) for j in range(len(V))]
    out += [dict(kind="rows3", i=i) for i in range(len(W))]
    out += [dict(kind="one", i=i) for i in range(len(V))]
    out += [dict(kind="shape", r=r, c=c) for r in (1, 2, 3, 4) for c in (1, 2, 3)]
    out += [dict(kind="rew", i=i, t=t) for i in range(len(REW)) for t in ("mdp", "dtmc")]
    out += [dict(kind="rewc", n=n, c=c) for n, c in ((1, 2), (1, 3), (2, 3), (2, 4), (3, 4), (3, 5))]
    out += [dict(kind="acts", acts=a) for a in itertools.product((0, 1, 2, -1), repeat=3)]
    out += [dict(kind="many", n=n, k=k) for n in (12, 45, 300) for k in (1, 2)]
    specs = []
    for n, kinds, ma, mt in [(1, "d", 1, 0), (2, "dhtn", 2, 0), (3, "dhN", 1, 0), (3, "dh", 2, 4)] + ([(2, "dhtn", 3, 0), (3, "dhn", 2, 5), (4, "dh", 1, 0)] if tier == "thorough" else []):
        specs += [dict(a=a, n=n) for a in M.gen_structures(n, kinds, ma, mt)]
    out += [dict(kind="expose", specs=specs[i:i + 40], at=i) for i in range(0, len(specs), 40)]
    return out

def bounds(tier):
    return "all 2x2 matrices with rows over %d values (nan, inf, negative, >1, off by 1e-6, 1e-7, 3e-9, 1.5e-10, 1e-12) next to a good row, as MDP and DTMC, in %d formats; all rows of length 3 over %d values; all shapes up to 4x3; %d reward vectors for 2 states, all reward vectors over 2-4 values for MDPs with <=3 states and <=5 rows; models with 12, 45 and 300 states and one or two actions each with one bad row or one bad reward at every position; all action numbers in {-1,0,1,2}; exposure of matrix, map, labels, rewards for all models with <=2 states, 3-state models with <=%s actions" % (
        len(V), len(FMTS), len(W), len(REW), "5" if tier == "thorough" else "4")

def fmt(rows, f):
    import scipy.sparse as sp
    a = np.array(rows, dtype=float)
    if f == "list": return [list(r) for r in rows]
    if f == "array": return a
    if f == "matrix": return np.asmatrix(a)
    if f == "csr0":
        r, c, v = zip(*[(i, j, a[i, j]) for i in range(a.shape[0]) for j in range(a.shape[1])])
        return sp.coo_matrix((v, (r, c)), shape=a.shape).tocsr()
    if f == "int": return [[int(x) for x in r] for r in rows] if all(x == x and abs(x) < 9 and x == int(x) for r in rows for x in r) else a
    return {"dok": sp.dok_matrix, "csr": sp.csr_matrix, "csc": sp.csc_matrix, "coo": sp.coo_matrix, "lil": sp.lil_matrix, "bsr": sp.bsr_matrix}[f](a)

def verdict(rows):
    """True accept, False reject, None not judged"""
    for r in rows:
        if any(not (0 <= x <= 1) for x in r): return False
        d = abs(math.fsum(r) - 1)
        if not d < 2e-9: return False
        if d > 2e-10: return None
    return True

def attempt(f):
    try: return f(), None
    except AssertionError as e: return None, "assert"
    except Exception as e: return None, "%s: %s" % (type(e).__name__, e)

def judge(ctx, make, want, what):
    m, err = attempt(make); ctx.op()
    ctx.outcome("accepted" if m is not None else "rejected" if err == "assert" else "error")
    if want is None: return m if err in (None, "assert") else ctx.fail(what + "raised " + err)
    if want and m is None: return ctx.fail(what + "was rejected (%s)" % err)
    if not want and err != "assert": return ctx.fail(what + ("was accepted" if m is not None else "raised %s instead of an AssertionError" % err))
    return m

def dense(m):
    out = np.zeros((m.C, m.N))
    for (i, j), p in m.P.items(): out[i, j] = p
    return out

def check(case, ctx):
    from switss.model import MDP, DTMC
    k = case["kind"]; ctx.trace()
    if k in ("rows2", "one", "rows3"):
        if k == "rows2":
            row = [V[case["i"]], V[case["j"]]]
            mats = [[row, [0.5, 0.5]], [[0.0, 1.0], row]]
        elif k == "one": mats = [[[V[case["i"]]]]]
        else: mats = [[[W[case["i"]], y, z], [0.1, 0.2, 0.7], [0.0, 0.0, 1.0]] for y in W for z in W] + [[[0.0, 0.0, 1.0], [W[case["i"]], y, z], [0.5, 0.5, 0.0]] for y in W for z in W if abs(W[case["i"]] + y + z - 1) < .2]
        for q, rows in enumerate(mats):
            n = len(rows); want = verdict(rows); ctx.state(str(rows))
            fs = FMTS if k != "rows3" else [FMTS[q % len(FMTS)]]
            for f in fs:
                for t in ("mdp", "dtmc", "dtmc map"):
                    P = fmt(rows, f)
                    mk = {"mdp": lambda: MDP(P, {(i, 0): i for i in range(n)}, {}, {"init": {0}}), "dtmc": lambda: DTMC(P), "dtmc map": lambda: DTMC(P, {"init": {0}}, {(n - 1 - i, 0): i for i in range(n)})}[t]
                    fails = len(ctx.fails); m = judge(ctx, mk, want, "%s with matrix %s (%s) " % (t, rows, f))
                    if len(ctx.fails) > fails: return
                    if m is not None and not np.array_equal(dense(m), np.array(rows)): return ctx.fail("%s exposes %s for %s (%s)" % (t, dense(m), rows, f))
    elif k == "shape":
        r, c = case["r"], case["c"]; rows = [[1.0 / c] * c for _ in range(r)]; ctx.state(r, c)
        for f in FMTS:
            judge(ctx, lambda: DTMC(fmt(rows, f)), r == c, "DTMC of shape %dx%d (%s) " % (r, c, f))
            if r >= c:
                ib = {(i % c, i // c): i for i in range(r)}
                m = judge(ctx, lambda: MDP(fmt(rows, f), ib), True, "MDP of shape %dx%d (%s) " % (r, c, f))
                if m is not None and (m.C, m.N) != (r, c): return ctx.fail("C, N = %s for shape %s" % ((m.C, m.N), (r, c)))
    elif k == "rew":
        R = REW[case["i"]]; P = [[0.5, 0.5], [0, 1]]; want = R is None or min(R) >= 0; ctx.state(str(R), case["t"])
        for conv in (lambda x: x, lambda x: None if x is None else np.array(x), lambda x: None if x is None else tuple(x)):
            mk = (lambda: DTMC(P, {}, reward_vector=conv(R))) if case["t"] == "dtmc" else (lambda: MDP(P, {(0, 0): 0, (1, 0): 1}, reward_vector=conv(R)))
            m = judge(ctx, mk, want, "%s with rewards %s " % (case["t"], R))
            if m is not None and R is not None and [float(x) for x in m.reward_vector] != [float(x) for x in R]: return ctx.fail("rewards %s are exposed as %s" % (R, m.reward_vector))
            if m is not None and R is None and m.reward_vector is not None: return ctx.fail("rewards appear from nowhere")
    elif k == "rewc":       # as many rewards as rows, which are more than the states
        n, c = case["n"], case["c"]; P = [[float(j == i % n) for j in range(n)] for i in range(c)]; ib = {(i % n, i // n): i for i in range(c)}
        for R in itertools.product((0, -1) if c > 4 else (0, 2.5, -1, -1e-9), repeat=c):
            ctx.state(n, c, R)
            for conv in (list, np.array, tuple):
                m = judge(ctx, lambda: MDP(P, ib, reward_vector=conv(R)), min(R) >= 0, "mdp with %d states, %d rows and rewards %s " % (n, c, R))
                if m is not None and [float(x) for x in m.reward_vector] != [float(x) for x in R]: return ctx.fail("rewards %s are exposed as %s" % (R, m.reward_vector))
    elif k == "many":       # one bad entry somewhere in a larger model
        import scipy.sparse as sp
        n, c = case["n"], case["k"]; ib = {(i // c, i % c): i for i in range(n * c)}; R = [0.25 * i for i in range(n * c)]
        r, j, v = zip(*[x for i in range(n * c) for x in ((i, (i + 1) % n, .75), (i, (7 * i + 3) % n, .25))]); P = sp.coo_matrix((v, (r, j)), shape=(n * c, n)).tolil()
        def make(P, R, t): return DTMC(P, {"init": {0}}, {(i, 0): i for i in range(n)}, reward_vector=R) if t else MDP(P, ib, {}, {"init": {0}}, reward_vector=R)
        for t in (0, 1)[:3 - c]:
            m = judge(ctx, lambda: make(P.copy(), list(R), t), True, "model with %d rows " % (n * c))
            if m is None: return
            if (m.P != P).nnz or [float(x) for x in m.reward_vector] != R or len(m.index_by_state_action) != n * c: return ctx.fail("model with %d rows exposes something else" % (n * c))
            for i in range(n * c) if n < 100 else (0, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, n * c - 1):
                ctx.state(n, c, t, i)
                for bad in (.25 + 1e-6, .2, -.25, float("nan")):
                    Q = P.copy(); Q[i, (7 * i + 3) % n] = bad; fails = len(ctx.fails)
                    judge(ctx, lambda: make(Q.tocsr() if i % 2 else Q, list(R), t), False, "model with %d rows, row %d containing %s instead of 1/4 " % (n * c, i, bad))
                    if len(ctx.fails) > fails: return
                for bad in (-1, -1e-9):
                    S = list(R); S[i] = bad; fails = len(ctx.fails)
                    judge(ctx, lambda: make(P.copy(), S if i % 2 else np.array(S), t), False, "model with %d rows, reward %d is %s " % (n * c, i, bad))
                    if len(ctx.fails) > fails: return
            judge(ctx, lambda: make(P.copy(), list(R) + [1.0], t), None, "one reward too many ")
    elif k == "acts":
        a = case["acts"]; ctx.state(str(a))
        judge(ctx, lambda: DTMC(np.eye(3), {}, {(i, x): i for i, x in enumerate(a)}), all(x == 0 for x in a), "DTMC with actions %s " % (a,))
        m = judge(ctx, lambda: MDP(np.eye(3), {(i, x): i for i, x in enumerate(a)}), True, "MDP with actions %s " % (a,))
        if m is not None and dict(m.index_by_state_action) != {(i, x): i for i, x in enumerate(a)}: return ctx.fail("the action map is not the given one")
    else:
        for j, s in enumerate(case["specs"]):
            n = s["n"]; a = s["a"]; t = "dtmc" if all(len(A) == 1 for A in a) and j % 2 else "mdp"; ps = pres_for(n)
            L = {"init": [0], "odd": list(range(1, n, 2)), "all": list(range(n)), "none": []}; AL = {"first": [[x, 0] for x in range(n)], "last": [[n - 1, len(a[n - 1]) - 1]]}
            R = [[str(F(2 * x + i, 3)) for i in range(len(A))] for x, A in enumerate(a)] if j % 3 else None
            p = ps[(case["at"] + j) % len(ps)]; b = M.Built(dict(a=a, t=t, rf=False, L=L, AL=AL if t == "mdp" else {}, R=R), p); ctx.state(str(a))
            P = b.matrix(); keep = [list(x) for x in P] if p["fmt"] == "list" else P.copy()
            from switss.model import MDP, DTMC
            Ls = {l: set(v) for l, v in b.L.items()}; As = {l: set(v) for l, v in b.AL.items()}; ib = dict(b.ibsa); Rv = None if b.R is None else list(b.R)
            m = DTMC(P, label_to_states=Ls, index_by_state_action=ib, reward_vector=Rv) if t == "dtmc" else MDP(P, ib, As, Ls, reward_vector=Rv)
            ctx.op(); w = "model %s, presentation %s: " % (a, p)
            if M.triples(m) != M.spec_triples(b): return ctx.fail(w + "transitions are %s" % M.triples(m))
            if {k: int(v) for k, v in m.index_by_state_action.items()} != b.ibsa: return ctx.fail(w + "index map is %s" % m.index_by_state_action)
            if (m.C, m.N) != (b.C, b.N): return ctx.fail(w + "C, N = %s" % ((m.C, m.N),))
            for l, v in b.L.items():
                if set(m.states_by_label[l]) != v: return ctx.fail(w + "states of label %s are %s" % (l, m.states_by_label[l]))
            for x in range(n):
                if set(m.labels_by_state[x]) != {l for l, v in b.L.items() if x in v}: return ctx.fail(w + "labels of state %d are %s" % (x, m.labels_by_state[x]))
            if set(m.states_by_label["unknown"]): return ctx.fail(w + "an unknown label has states")
            if t == "mdp":
                for l, v in b.AL.items():
                    if set(m.actions_by_label[l]) != v: return ctx.fail(w + "actions of label %s are %s" % (l, m.actions_by_label[l]))
                for sa in b.ibsa:
                    if set(m.labels_by_action[sa]) != {l for l, v in b.AL.items() if sa in v}: return ctx.fail(w + "labels of action %s are %s" % (sa, m.labels_by_action[sa]))
            if (m.reward_vector is None) != (b.R is None) or b.R is not None and [float(x) for x in m.reward_vector] != b.R: return ctx.fail(w + "rewards are %s" % m.reward_vector)
            # the caller's objects are unchanged
            same = P == keep if p["fmt"] == "list" else not (P != keep).nnz if hasattr(P, "nnz") else np.array_equal(P, keep)
            if not same or Ls != {l: set(v) for l, v in b.L.items()} or As != {l: set(v) for l, v in b.AL.items()} or ib != b.ibsa or Rv != b.R: return ctx.fail(w + "an argument was changed")
            ctx.outcome("exposed", t, n)
