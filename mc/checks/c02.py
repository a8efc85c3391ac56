"""C02: structure of the reduced model, state/action maps, labels, rewards."""
from common import *
import checks.c01 as c01

ASSUMPTIONS = ["reference reduction: forward search that stops at targets, backward search from targets (mc/ref.py)"]

def cases(tier): return c01.cases(tier, True)
def bounds(tier): return c01.bounds(tier) + "; also all MDPs with 2 states and <=2 actions each over Dirac/half/1e-9-and-the-rest rows and with 3 states, one action each and one such row (1e-9 or 1e-11); every state and action carries its own label and shared labels, every row its own reward; default and chosen names of the new labels (the default names then also label ordinary states)"

def check(case, ctx):
    from switss.model import ReachabilityForm, MDP, DTMC
    n = len(case["a"]); a = case["a"]; mdp = case["t"] == "mdp"
    for k, (init, T) in enumerate(c01.label_sets(n)):
        L = {"init": [init], "target": T, "odd": [s for s in range(n) if s % 2]}
        for s in range(n): L["s%d" % s] = [s]
        kw = {} if k % 2 else dict(new_target_label="G", new_fail_label="F")
        if kw and k % 4: L["rf_target"] = [s for s in range(n) if s % 2 == 0]; L["rf_fail"] = [n - 1]     # ordinary labels here
        AL = {"a%d_%d" % (s, i): [[s, i]] for s in range(n) for i in range(len(a[s]))}
        AL["first"] = [[s, 0] for s in range(n)]; AL["both"] = [[s, i] for s in range(n) for i in range(len(a[s]))]
        R = [[str(F(3 * s + i + 1, 4)) for i in range(len(a[s]))] for s in range(n)] if k % 3 else None
        spec = dict(a=a, t=case["t"], rf=False, L=L, AL=AL if mdp else {}, R=R)
        keep, rows = ref.reduction(spec)
        b = M.Built(spec, case["pres"]); sys = b.model()
        if k % 3 == 1: kw["debug"] = True
        G, Fl = kw.get("new_target_label", "rf_target"), kw.get("new_fail_label", "rf_fail")
        if not keep: continue
        before = snap_model(sys); ctx.state(str(a), init, tuple(T), case["t"])
        rf, smap, amap = ReachabilityForm.reduce(sys, "init", "target", **kw); ctx.op(); ctx.trace()
        def bad(m, **d): ctx.fail(m, init=init, T=T, **d)
        q = rf.system; N, C = q.N, q.C; tr = M.triples(q)
        if snap_model(sys) != before: return bad("reduce changed the original model")
        if type(q) is not type(sys): return bad("reduce changed the type of the model")
        S = b.S; goal, fail = N - 2, N - 1
        if set(smap) != {S[s] for s in keep}: return bad("kept states are %s, expected %s" % (sorted(smap), sorted(S[s] for s in keep)))
        if sorted(smap.values()) != list(range(len(keep))) or N != len(keep) + 2: return bad("the state map is no bijection onto 0..N-3")
        if set(amap) != {b.A[r] for r in rows}: return bad("the state-action map does not cover exactly the actions of kept states")
        if len(set(amap.values())) != len(rows) or C != len(rows) + 2: return bad("the state-action map is not injective or rows are missing")
        if any(v[0] != smap[s] for (s, _), v in amap.items()): return bad("an action is mapped to the wrong state")
        if any(v not in q.index_by_state_action for v in amap.values()): return bad("mapped action does not exist")
        pr = rf_triple_problems(q, rf.initial, goal, fail)
        if pr: return bad("the result is not in reachability form: %s" % pr)
        if rf.initial != smap[S[init]]: return bad("wrong initial state")
        if (rf.target_label, rf.fail_label, rf.initial_label) != (G, Fl, "init"): return bad("wrong labels on the form")
        if (rf.target_state_idx, rf.fail_state_idx, rf.target_sap_idx, rf.fail_sap_idx) != (goal, fail, C - 2, C - 1): return bad("wrong documented positions")
        try: ReachabilityForm.assert_consistency(q, "init", G, Fl)
        except AssertionError as e: return bad("assert_consistency rejects the result: %s" % e)
        exp = {}
        for (s, i), (d, g, f) in rows.items():
            ns, na = amap[b.A[(s, i)]]
            for t, p in d.items(): exp[(ns, na, smap[S[t]])] = float(p)
            if g: exp[(ns, na, goal)] = 1.0
            if f: exp[(ns, na, fail)] = float(f)
        got = {k2: v for k2, v in tr.items() if k2[0] < goal}
        if set(got) != set(exp): return bad("transitions differ", missing=sorted(set(exp) - set(got)), surplus=sorted(set(got) - set(exp)))
        for k2 in exp:
            if abs(got[k2] - exp[k2]) > (1e-9 if k2[2] >= goal else 1e-15): return bad("probability of %s is %r, expected %r" % (k2, got[k2], exp[k2]))
        inv = {v: k2 for k2, v in smap.items()}
        for ns in range(N - 2):
            if set(q.labels_by_state[ns]) != set(sys.labels_by_state[inv[ns]]): return bad("labels of state %d are %s" % (ns, q.labels_by_state[ns]))
        if set(q.labels_by_state[goal]) != {G} or set(q.labels_by_state[fail]) != {Fl}: return bad("labels of goal or fail")
        for l in L:
            if set(q.states_by_label[l]) != {smap[S[s]] for s in L[l] if s in keep}: return bad("states of label %s" % l)
        if mdp:
            for (s, a_), v in amap.items():
                if set(q.labels_by_action[v]) != set(sys.labels_by_action[(s, a_)]): return bad("labels of action %s" % (v,))
        if R is None:
            if q.reward_vector is not None: return bad("rewards appear")
        else:
            for (s, i) in rows:
                r = q.reward_vector[q.index_by_state_action[amap[b.A[(s, i)]]]]
                if abs(r - float(F(R[s][i]))) > 1e-12: return bad("reward of %s" % ((s, i),))
            if q.reward_vector[C - 2] != 0 or q.reward_vector[C - 1] != 0: return bad("goal or fail has a reward")
        ctx.outcome(len(keep), len(rows), sum(1 for r in rows.values() if r[2]), case["t"])
