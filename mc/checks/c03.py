"""C03: assert_consistency accepts exactly the reachability forms."""
from common import *

ASSUMPTIONS = ["the reference decision is written from the documentation of ReachabilityForm (mc/common.py: rf_triple_problems)",
               "models whose initial state is the goal itself are not enumerated"]

def labelings(n):
    """assignments of (initial, goal, fail) label sets: all single ones plus missing and duplicate ones"""
    out = [([i], [g], [f]) for i in range(n) for g in range(n) for f in range(n) if i != g]
    i, g, f = 0, n - 2, n - 1
    out += [([], [g], [f]), ([i], [], [f]), ([i], [g], []), ([i, g], [g], [f]), ([i], [i, g], [f]), ([i], [g], [g, f])]
    return out

def cases(tier):
    out = []
    for a in M.gen_structures(3, "dh", 2, 4): out.append(dict(k="small", a=a))
    base = M.rf_enum(1, "dhn") + M.rf_enum(2, "dh", 2, 4 if tier == "thorough" else 3)
    base += M.rf_dtmcs(3, "dh") + M.rf_enum(3, "d", 2, 5 if tier == "thorough" else 4)
    base += [s for s in M.families() if len(s["a"]) <= 9]
    for i, s in enumerate(base): out.append(dict(k="mut", spec=s))
    for s in M.large(2, 9) + M.large(45)[:2 if tier == "quick" else 3]: out.append(dict(k="cut", spec=s))
    return out

def bounds(tier):
    return ("all 3-state MDPs with <=4 actions over Dirac/half rows with every labelling of initial/goal/fail; for every enumerated reachability form "
            "with <=2 transient states (<=3 actions, thorough <=4), for all 3-state DTMCs, 3-state Dirac MDPs with <=4 (5) actions and structured families every single mutation: goal/fail swapped or moved, rows permuted, labels "
            "moved, removed or duplicated, actions added to goal/fail (their rows and numbers anywhere), every transition redirected to every state, states cut off; block structures with 13, 55 and 271 states with each of their states in turn cut off from the initial state, cut off from goal, not absorbed any more or labelled as another; each with the default label names and with chosen ones, the default names then being ordinary labels")

def decide(acts, lab, rows_order):
    """reference: acts over N states in final numbering; rows_order: list of (s,i)"""
    I, G, Fl = lab
    if len(I) != 1 or len(G) != 1 or len(Fl) != 1: return "label count"
    i, g, f = I[0], G[0], Fl[0]; N = len(acts); C = len(rows_order)
    if len({i, g, f}) < 3 and (g == f or i == f): return "coinciding states"
    if g != N - 2 or f != N - 1: return "state position"
    for s, row in ((g, C - 2), (f, C - 1)):
        if len(acts[s]) != 1 or set(ref.dist(acts[s][0])) != {s}: return "not absorbing"
        if rows_order[row] != (s, 0): return "row position"
    e = {s: set().union(*[set(ref.dist(d)) for d in acts[s]]) for s in range(N)}; bk = {}
    for s in e:
        for t in e[s]: bk.setdefault(t, set()).add(s)
    if ref.reach(e, [i]) | {f} != set(range(N)): return "unreachable state"
    if ref.reach(bk, [g]) | {f} != set(range(N)): return "state does not reach goal"
    return None

def try_one(ctx, acts, lab, rows_order, t="mdp", aid=0, fmt="dok"):
    """once with the default names of the labels, once with names of the caller's choice, the default ones being ordinary labels"""
    return _try(ctx, acts, lab, rows_order, t, aid, fmt, False) and _try(ctx, acts, lab, rows_order, t, aid, fmt, True)

def _try(ctx, acts, lab, rows_order, t, aid, fmt, custom):
    from switss.model import MDP, DTMC, ReachabilityForm
    exp = decide(acts, lab, rows_order)
    N = len(acts); C = len(rows_order)
    ent = {}
    for k, (s, i) in enumerate(rows_order):
        for tt, p in ref.dist(acts[s][i]).items(): ent[(k, tt)] = float(p)
    import scipy.sparse as sp
    m = sp.dok_matrix((C, N))
    for ij, p in ent.items(): m[ij] = p
    if fmt == "zeros":
        r = list(ent) + [(i, j) for i in range(C) for j in range(N) if (i, j) not in ent]
        m = sp.coo_matrix(([ent.get(x, 0.0) for x in r], ([x[0] for x in r], [x[1] for x in r])), shape=(C, N)).tocsr()
    L = {}
    for nm, ss in zip(("start", "G", "F") if custom else ("init", "rf_target", "rf_fail"), lab):
        if ss or aid == 0: L[nm] = set(ss)
    if custom:
        h = len(rows_order) % 3
        if h: L.update({"rf_target": {N - 2}, "rf_fail": {N - 1}, "init": {0}} if h == 1 else {"rf_target": {0, N - 1}, "rf_fail": {0}, "init": set(range(N))})
    if t == "dtmc": sys = DTMC(m, label_to_states=L, index_by_state_action={(s, 0): k for k, (s, i) in enumerate(rows_order)})
    else: sys = MDP(m, {(s, i + aid): k for k, (s, i) in enumerate(rows_order)}, {}, L)
    ctx.op(); ctx.trace(); ctx.state(str(acts), str(lab), str(rows_order)); ctx.outcome(exp)
    for how in ("assert", "construct"):
        try:
            if custom:
                if how == "assert": ReachabilityForm.assert_consistency(sys, "start", "G", "F") if N % 2 else ReachabilityForm.assert_consistency(sys, initial_label="start", target_label="G", fail_label="F")
                elif exp is not None or lab[0][0] not in (N - 2, N - 1):
                    f = ReachabilityForm(sys, "start", "G", "F")
                    if (f.initial_label, f.target_label, f.fail_label, f.initial) != ("start", "G", "F", lab[0][0]): ctx.fail("constructed with labels %s and initial state %s" % ((f.initial_label, f.target_label, f.fail_label), f.initial)); return False
                else: continue
            elif how == "assert": ReachabilityForm.assert_consistency(sys, "init")
            else:
                if exp is None and lab[0][0] in (N - 2, N - 1): continue
                ReachabilityForm(sys, "init")
            ok = True
        except Exception as e: ok = False; err = e
        if ok != (exp is None):
            ctx.fail("%s %s a model that %s" % (how, "accepts" if ok else "rejects (%s)" % err, "is a reachability form" if exp is None else "is none: " + exp),
                     acts=acts, labels=lab, rows=rows_order, t=t, fmt=fmt)
            return False
    return True

def std_rows(acts): return [(s, i) for s in range(len(acts)) for i in range(len(acts[s]))]

def permute(acts, pi):
    b = [None] * len(acts)
    for s in range(len(acts)): b[pi[s]] = [[[pi[t], p] for t, p in d] for d in acts[s]]
    return b

def cut(spec, ctx):
    """larger forms: each state in turn made unreachable, unable to reach goal, or a second initial, goal or fail state"""
    n = len(spec["a"]); acts = spec["a"] + [[M.dirac(n)], [M.dirac(n + 1)]]; lab = ([0], [n], [n + 1]); t = spec["t"]; rows = std_rows(acts)
    if not try_one(ctx, acts, lab, rows, t): return
    for k, s in enumerate(range(1, n)):
        b = [[M.merge([[n + 1 if x == s else x, p] for x, p in d]) for d in A] for A in acts]
        if not _try(ctx, b, lab, rows, t, 0, "dok", bool(k % 2)): return
        b = acts[:s] + [[M.dirac(s if k % 3 else n + 1)] * len(acts[s])] + acts[s + 1:]
        if not _try(ctx, b, lab, rows, t, 0, "dok", bool(k % 2)): return
        if n < 50 or k % 7 == 0:
            for l2 in (([0, s], [n], [n + 1]), ([0], [n, s], [n + 1]), ([0], [n], [s, n + 1]), ([0], [s], [n + 1])):
                if not _try(ctx, acts, l2, rows, t, 0, "dok", bool(k % 2)): return

def check(case, ctx):
    if case["k"] == "small":
        a = case["a"]; rows = std_rows(a)
        for lab in labelings(3):
            if lab[0] and lab[0] in (lab[1], lab[2]): continue
            if not try_one(ctx, a, lab, rows, "mdp"): return
        return
    if case["k"] == "cut": return cut(case["spec"], ctx)
    spec = case["spec"]; n = len(spec["a"]); N = n + 2
    acts = spec["a"] + [[M.dirac(n)], [M.dirac(n + 1)]]
    lab = ([0], [n], [n + 1]); t = spec["t"]; rows = std_rows(acts)
    ok = try_one(ctx, acts, lab, rows, t) and try_one(ctx, acts, lab, rows, t, fmt="zeros") and (t == "dtmc" or try_one(ctx, acts, lab, rows, t, aid=3))
    if not ok: return
    # labels
    for i in range(N):
        for which in range(3):
            l2 = list(lab); l2[which] = [i]
            if l2[0] == l2[1] or l2[0] == l2[2]: continue
            if not try_one(ctx, acts, tuple(l2), rows, t): return
            l3 = list(lab); l3[which] = sorted(set(l3[which]) | {i})
            if which and i in lab[0]: continue
            if not try_one(ctx, acts, tuple(l3), rows, t): return
    for which in range(3):
        l2 = list(lab); l2[which] = []
        if not (try_one(ctx, acts, tuple(l2), rows, t) and try_one(ctx, acts, tuple(l2), rows, t, aid=0 if t == "dtmc" else 1)): return
    # positions of states and rows
    for x, y in itertools.combinations(range(N), 2):
        pi = list(range(N)); pi[x], pi[y] = y, x
        b = permute(acts, pi); l2 = tuple([pi[s] for s in ss] for ss in lab)
        if not try_one(ctx, b, l2, std_rows(b), t): return
        if x < len(rows) and y < len(rows):
            r2 = list(rows); r2[x], r2[y] = r2[y], r2[x]
            if not try_one(ctx, acts, lab, r2, t): return
    C = len(rows)
    for x in range(C - 2):                      # a row behind or between goal and fail
        for y in (C - 2, C - 1):
            r2 = list(rows); r2[x], r2[y] = r2[y], r2[x]
            if not try_one(ctx, acts, lab, r2, t): return
    r2 = rows[:-2] + [rows[-1], rows[-2]]
    if not try_one(ctx, acts, lab, r2, t): return
    # goal and fail not absorbing / with further actions
    for z in (n, n + 1):
        for d in range(N):
            b = copy.deepcopy(acts)
            if d != z:
                b[z] = [[[d, "1"]]]
                if not try_one(ctx, b, lab, std_rows(b), t): return
                b[z] = [[[d, "1/1000000"], [z, "999999/1000000"]]]
                if not try_one(ctx, b, lab, std_rows(b), t): return
            if t == "mdp":
                b[z] = [[[z, "1"]], [[d, "1"]]]
                if not try_one(ctx, b, lab, std_rows(b), t): return
    # a second action of goal or fail, its row and its number anywhere
    for z in (n, n + 1) if t == "mdp" else ():
        for d in {z, 0, 2 * n + 1 - z}:
            for first in (0, 1):
                b = copy.deepcopy(acts); b[z] = [[[z, "1"]], [[d, "1"]]] if first == 0 else [[[d, "1"]], [[z, "1"]]]
                r0 = [(s, first) if s == z else (s, i) for s, i in rows]
                for x in range(len(r0) + 1):
                    if not try_one(ctx, b, lab, r0[:x] + [(z, 1 - first)] + r0[x:], t): return
    # every transition redirected to every state, every action dropped
    for s in range(n):
        for i in range(len(acts[s])):
            for j in range(len(acts[s][i])):
                for d in range(N):
                    b = copy.deepcopy(acts); b[s][i][j][0] = d; b[s][i] = M.merge(b[s][i])
                    if not try_one(ctx, b, lab, std_rows(b), t): return
            if len(acts[s]) > 1:
                b = copy.deepcopy(acts); del b[s][i]
                if not try_one(ctx, b, lab, std_rows(b), t): return
