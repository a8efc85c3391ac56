"""C12: expected rewards of reward reachability forms; rejection of unsuitable models."""
from common import *
import checks.c05 as c05, checks.c03 as c03

ASSUMPTIONS = ["tolerance 2e-6 (glpk, which prints six significant digits: 1e-5) relative to the largest value", "the reward of an original target state counts (its actions move to the new goal)"]

BIG = ("5000", "2500/7", "1/1000", "0", "100000")

def cases(tier):
    th = tier == "thorough"; out = []
    for n, kinds, mt in ((1, "dht", 0), (2, "dh", 3), (2, "dh", 0), (3, "dh", 3)) + (((2, "dht", 3), (3, "dh", 4)) if th else ()):
        for i, a in enumerate(M.rew_structures(n, kinds, 2, mt)):
            m = sum(map(len, a))
            if n == 2 and mt == 0 and m <= 3: continue
            for j, R in enumerate(M.rewards_for(a, m <= 2 or (th and m <= 3))):
                ps = pres_for(n); out.append(dict(k="sys", a=a, R=R, t="dtmc" if m == n else "mdp", pres=ps[(i + j) % len(ps)], solver=("cbc", "glpk")[(i + j) % 2]))
    for i, a in enumerate(M.rew_structures(1, "dht", 2, 0) + M.rew_structures(2, "dh", 2, 3)):          # rewards of other sizes
        m = sum(map(len, a)); n = len(a); q = [BIG[(i + j) % len(BIG)] for j in range(m)]; it = iter(q); ps = pres_for(n)
        out.append(dict(k="sys", a=a, R=[[next(it) for _ in A] for A in a], t="dtmc" if m == n else "mdp", pres=ps[i % len(ps)], solver="cbc"))
    for f in M.families(tier) + M.large(2, 9, 45, ec=False):
        a = M.nofail(f); n = len(a)
        if M.ecfree(dict(a=a)) and M.rf_valid(a):
            for j, R in enumerate(M.rewards_for(a, False)):
                out.append(dict(k="sys", a=a, R=R, t=f["t"], pres=M.simple_presentations(n)[j % 3], solver=("cbc", "glpk")[j % 2]))
    for i, a in enumerate(M.gen_structures(2, "dht", 2)): out.append(dict(k="red", a=a, t="mdp", pres=pres_for(2, False)[i % 7]))
    for i, a in enumerate(M.gen_structures(3, "dh", 1)): out.append(dict(k="red", a=a, t="dtmc", pres=pres_for(3, False)[i % 7]))
    for i, a in enumerate(M.gen_structures(3, "dh" if th else "d", 2, 5)): out.append(dict(k="red", a=a, t="mdp", pres=pres_for(3, False)[i % 7]))
    for n, kinds, mt in ((1, "dht", 2), (2, "dh", 3), (3, "d", 3)) + (((2, "dh", 4), (3, "dh", 4)) if th else ()):
        for a in M.rew_structures(n, kinds, 2, mt): out.append(dict(k="cons", a=a))
    for s in M.rf_enum(1, "dht") + M.rf_enum(2, "dh", 2, 4 if th else 3) + M.rf_dtmcs(3, "d") + [f for f in M.families() if len(f["a"]) <= 9] + M.large(2, 9): out.append(dict(k="form", spec=s))
    return out

def decide(acts, lab, rows_order):
    """whether a model with rewards is a reward reachability form without fail state"""
    I, G = lab; N = len(acts); C = len(rows_order)
    if len(I) != 1 or len(G) != 1 or I == G: return "labels"
    i, g = I[0], G[0]
    if g != N - 1: return "position of goal"
    if len(acts[g]) != 1 or set(ref.dist(acts[g][0])) != {g}: return "goal not absorbing"
    if rows_order[-1] != (g, 0): return "row of goal"
    e = {s: set().union(*[set(ref.dist(d)) for d in acts[s]]) for s in range(N)}; bk = {}
    for s in e:
        for t in e[s]: bk.setdefault(t, set()).add(s)
    if ref.reach(e, [i]) != set(range(N)): return "unreachable state"
    if ref.reach(bk, [g]) != set(range(N)): return "state does not reach goal"
    U = set(range(N)) - {g}; ch = True
    while ch:
        ch = False
        for s in list(U):
            if not any(set(ref.dist(d)) <= U for d in acts[s]): U.discard(s); ch = True
    return "end component" if U else None

def try_sys(ctx, acts, lab, rows, names=("init", "rrf_target"), rewards=True):
    from switss.model import MDP, DTMC, RewardReachabilityForm as RR
    import scipy.sparse as sp
    exp = decide(acts, lab, rows) if rewards else "no rewards"; N = len(acts); C = len(rows); m = sp.dok_matrix((C, N))
    for k, (s, i) in enumerate(rows):
        for t, p in ref.dist(acts[s][i]).items(): m[k, t] = float(p)
    L = {}
    for nm, ss in zip(names, lab):
        if ss: L.setdefault(nm, set()).update(ss)
    if names != ("init", "rrf_target"): L["rrf_target"] = set(lab[0]); L["rf_target"] = set(lab[0])          # labels that are not the ones given
    R = [0.0] * C if rewards else None
    if all(len(A) == 1 for A in acts) and C % 2: q = DTMC(m, L, index_by_state_action={(s, 0): k for k, (s, i) in enumerate(rows)}, reward_vector=R)
    else: q = MDP(m, {(s, i): k for k, (s, i) in enumerate(rows)}, {}, L, reward_vector=R)
    ctx.op(2); ctx.trace(); ctx.state(str(acts), str(lab), str(rows)); ctx.outcome("system", exp)
    for how, f in (("assert_system_consistency", lambda: RR.assert_system_consistency(q, *names)), ("fromsystem", lambda: RR.fromsystem(q, *names))):
        try: f(); ok = True
        except Exception as e: ok = False; err = e
        if ok != (exp is None): ctx.fail("%s %s" % (how, "accepts a model that is not suitable: " + exp if ok else "rejects a suitable model (%s)" % err), acts=acts, labels=lab, rows=rows, names=names); return False
    return True

def cons(case, ctx):
    """every suitable model and every single change of it"""
    n = len(case["a"]); N = n + 1; acts = case["a"] + [[M.dirac(n)]]; rows = c03.std_rows(acts); lab = ([0], [n])
    def go(*a, **k): return try_sys(ctx, *a, **k)
    ok = go(acts, lab, rows) and go(acts, lab, rows, ("start", "done")) and go(acts, lab, rows, rewards=False) and go(acts, (lab[1], lab[1]), rows, ("both", "both"))
    if not ok: return
    for i in range(N):
        for w in (0, 1):
            l2 = list(lab); l2[w] = [i]
            if not go(acts, tuple(l2), rows): return
            l2[w] = sorted({i} | set(lab[w]))
            if not go(acts, tuple(l2), rows): return
    for w in (0, 1):
        l2 = list(lab); l2[w] = []
        if not go(acts, tuple(l2), rows): return
    for x, y in itertools.combinations(range(N), 2):
        pi = list(range(N)); pi[x], pi[y] = y, x; b = c03.permute(acts, pi)
        if not go(b, tuple([pi[s] for s in ss] for ss in lab), c03.std_rows(b)): return
    for x, y in itertools.combinations(range(len(rows)), 2):
        r2 = list(rows); r2[x], r2[y] = r2[y], r2[x]
        if not go(acts, lab, r2): return
    for d in range(N):
        b = copy.deepcopy(acts)
        if d != n:
            b[n] = [[[d, "1"]]]
            if not go(b, lab, c03.std_rows(b)): return
        b[n] = [[[n, "1"]], [[d, "1"]]]
        if not go(b, lab, c03.std_rows(b)): return
        if d != n:
            b[n] = [[[d, "1/1000000"], [n, "999999/1000000"]]]
            if not go(b, lab, c03.std_rows(b)): return
    for s in range(n):
        for i in range(len(acts[s])):
            for j in range(len(acts[s][i])):
                for d in range(N):
                    b = copy.deepcopy(acts); b[s][i][j][0] = d; b[s][i] = M.merge(b[s][i])
                    if not go(b, lab, c03.std_rows(b)): return
        for d in range(N):
            b = copy.deepcopy(acts); b[s].append(M.dirac(d))
            if not go(b, lab, c03.std_rows(b)): return

def forms(case, ctx):
    """assert_reachform_consistency on every reachability form"""
    from switss.model import RewardReachabilityForm as RR
    spec = case["spec"]; n = len(spec["a"]); ps = pres_for(n) if n <= 3 else M.simple_presentations(n); leak = any(t == n + 1 for A in spec["a"] for d in A for t, p in d); good = not leak and M.ecfree(spec)
    for k, R in enumerate((None, [["1"] * len(A) for A in spec["a"]])):
        b = M.Built(dict(spec, R=R), ps[(n + k) % len(ps)]); rf = b.rf(); ctx.op(); ctx.trace(); ctx.state(str(spec["a"]), k)
        try: RR.assert_reachform_consistency(rf); ok = True
        except AssertionError: ok = False
        ctx.outcome("form", ok)
        if ok != (good and R is not None): return ctx.fail("assert_reachform_consistency %s a form %s" % ("accepts" if ok else "rejects", "without rewards" if R is None else "without end components and fail" if good else "with end components or transitions to fail"))

def bounds(tier):
    return "all end-component-free structures with 1 and 2 transient states (<=2 actions each) and 3 states with <=%d actions over Dirac/half rows with rewards 0, 1, 5/2 (and between 1/1000 and 100000; all assignments for <=%d rows, covering ones above), structured families (up to 271 states); reduction of all 2-state MDPs, 3-state DTMCs and 3-state MDPs with <=5 %sactions, with every target set, accepted exactly when fail is unreachable and there is no end component; fromsystem on the same structures; fromsystem and assert_system_consistency on every single change (labels, positions of states and rows, goal's actions, every transition redirected, every Dirac action added) of the smallest suitable models; assert_reachform_consistency on every reachability form with <=2 states, 3 Dirac states and the families, with and without rewards" % ((4, 3, "") if tier == "thorough" else (3, 2, "Dirac "))

def values(ctx, form, r, byidx, rows, inv, solver, n):
    TOL = 2e-6 if solver == "cbc" else 1e-5           # glpk prints six significant digits
    """form: the real reward form; r: reference with rewards; byidx: concrete state of reference state"""
    scale = 1
    for mode, fns in (("min", ("rew_min", "max_z_state")), ("max", ("rew_max",))):
        ex = r.rewards(mode); scale = max(1, float(max(ex[:n])))
        for f in fns:
            v = getattr(form, f)(solver=solver); ctx.op()
            if len(v) != n: return ctx.fail("%s has length %d" % (f, len(v)))
            for s in range(n):
                if not close(v[byidx[s]], ex[s], TOL * scale): return ctx.fail("%s of state %d is %r, exactly %s" % (f, s, float(v[byidx[s]]), ex[s]))
        ctx.outcome(mode, ex[0])
    emin, emax = r.rewards("min"), r.rewards("max")
    rew = np.array([float(r.rew[s][i]) for s, i in rows])
    za = form.max_z_state_action(solver=solver)
    for k, (s, i) in enumerate(rows):
        x = r.rew[s][i] + sum((p * emin[t] for t, p in r.acts[s][i].items() if t < n), F(0))
        if not close(za[k], x, TOL * scale): return ctx.fail("max_z_state_action of %s is %r, expected %s" % ((s, i), float(za[k]), x))
    y = np.asarray(form.max_y_state_action(solver=solver), dtype=float); ctx.op(3)
    if len(y) != len(rows) or (y < -TOL).any(): return ctx.fail("max_y_state_action is not nonnegative")
    flow = np.zeros(n); flow[0] = -1
    for k, (s, i) in enumerate(rows):
        flow[s] += y[k]
        for t, p in r.acts[s][i].items():
            if t < n: flow[t] -= y[k] * float(p)
    if (flow > 10 * TOL * scale).any(): return ctx.fail("max_y_state_action violates y A <= delta")
    if not close(y @ rew, emax[0], 10 * TOL * scale): return ctx.fail("weighted reward of max_y_state_action is %r, maximal expected reward %s" % (float(y @ rew), emax[0]))
    ys = form.max_y_state(solver=solver)
    for s in range(n):
        if not close(ys[byidx[s]], sum(y[k] for k, r_ in enumerate(rows) if r_[0] == s), 10 * TOL * scale): return ctx.fail("max_y_state is no sum of max_y_state_action")

def check(case, ctx):
    from switss.model import RewardReachabilityForm as RR, ReachabilityForm
    if case["k"] == "cons": return cons(case, ctx)
    if case["k"] == "form": return forms(case, ctx)
    a = case["a"]; n = len(a)
    if case["k"] == "sys":
        spec = dict(a=a, rf=False, tail=1, t=case["t"], L={"init": [0], "odd": list(range(1, n, 2))}, AL={}, R=case["R"])
        b = M.Built(spec, case["pres"]); sys = b.model(); before = snap_model(sys); ctx.state(str(a), str(case["R"]), str(case["pres"]))
        form = RR.fromsystem(sys, "init"); ctx.op(); ctx.trace()
        if snap_model(sys) != before: return ctx.fail("fromsystem changed the given system")
        q = form.system; tr = M.triples(q); ex = M.spec_triples(b); ex[(n + 1, 0, n + 1)] = 1.0
        if tr != ex: return ctx.fail("the form's system has other transitions", got=str(tr), expected=str(ex))
        if form.initial != b.S[0]: return ctx.fail("wrong initial state")
        for s in range(n):
            if set(q.labels_by_state[b.S[s]]) != set(sys.labels_by_state[b.S[s]]): return ctx.fail("labels of state %d" % s)
        if dict(form.index_by_state_action) != {x: k for x, k in q.index_by_state_action.items() if k < q.C - 2}: return ctx.fail("index_by_state_action of the form: %s" % dict(form.index_by_state_action))
        if (form.initial_label, form.target_label, form.fail_label) != ("init", "rrf_target", "rf_fail"): return ctx.fail("labels of the form")
        if not form.is_ec_free or any(form.in_proper_ec(s) for s in range(n)): return ctx.fail("a model without end components is said to have some")
        for bad in ("MIN", "", None, "both"):
            try: form.fark_constraints(1, bad); return ctx.fail("fark_constraints accepts the mode %r" % bad)
            except AssertionError: pass
        r = ref.Ref([[ref.dist(d) for d in A] for A in a], {n}, [[F(x) for x in R] for R in case["R"]])
        rows = [x for x in b.rows if x[0] < n]
        values(ctx, form, r, b.S, rows, None, case["solver"], n)
        A, _ = ref.farkas(dict(a=a)); inv = {b.S[s]: s for s in range(n)}
        Ad = np.array([[float(A[x][inv[c]]) for c in range(n)] for x in rows]); bd = np.array([float(r.rew[s][i]) for s, i in rows])
        delta = np.array([1.0 if c == b.S[0] else 0.0 for c in range(n)])
        if not np.allclose(c05.dense(form.A), Ad, atol=1e-12): return ctx.fail("the matrix A of the form")
        def polytopes(form, bd, how, thrs):
            for thr in thrs:
                for mode, EA, Eb in (("min", np.vstack([Ad, -delta]), np.append(bd, -thr)), ("max", np.vstack([Ad.T, -bd]), np.append(delta, -thr))):
                    Mx, rhs = form.fark_constraints(thr, mode); ctx.op()
                    if not c05.same_polytope(c05.dense(Mx), np.asarray(rhs, dtype=float).ravel(), EA, Eb): ctx.fail("fark_constraints(%s, %s)%s is not the documented polytope" % (thr, mode, how)); return False
            return True
        if not polytopes(form, bd, "", (2, 0, .5)): return
        # forms built from a reachability form and a vector of rewards, which may as well be integers
        base = ReachabilityForm(q, "init", "rrf_target", "rf_fail"); whole = [int(F(x) + F(1, 2)) for x in bd]
        for how, vec in ((" for rewards %s in an array of integers" % whole, np.array(whole)), (" for rewards given as an array of numbers", bd), (" for small integer types", np.array(whole, dtype=np.int32 if max(whole) > 100 else np.int8))):
            keep = vec.copy(); f2 = RR(base, vec)
            if not polytopes(f2, keep.astype(float), how, (.75, 2.4)): return
            if (vec != keep).any() or vec.dtype != keep.dtype: return ctx.fail("the vector of rewards was changed")
            if how.startswith(" for rewards %s" % whole):
                r2 = ref.Ref(r.acts, {n}, [[F(int(F(x) + F(1, 2))) for x in R] for R in case["R"]])
                values(ctx, f2, r2, b.S, rows, None, case["solver"], n)
                if ctx.fails: return
        return
    # reduction of general models
    for k, T in enumerate(M.nonempty_subsets(range(n))):
        init = k % n
        R = [[("1/2", "0", "2", "1")[(s + i + k) % 4] for i in range(len(a[s]))] for s in range(n)]
        spec = dict(a=a, t=case["t"], rf=False, L={"init": [init], "target": list(T)}, AL={}, R=R)
        keep, rrows = ref.reduction(spec)
        b = M.Built(spec, case["pres"]); sys = b.model()
        if not keep: continue
        order = [init] + sorted(keep - {init}); ix = {s: j for j, s in enumerate(order)}; m = len(order)
        acts = [[] for _ in order]; rew = [[] for _ in order]; names = {}
        for (s, i), (d, g, f) in sorted(rrows.items()):
            e = {ix[t]: p for t, p in d.items()}
            if g: e[m] = g
            if f: e[m + 1] = f
            names[(s, i)] = (ix[s], len(acts[ix[s]])); acts[ix[s]].append(e); rew[ix[s]].append(F(R[s][i]))
        good = not any(m + 1 in d for A in acts for d in A)
        U = set(range(m)); ch = True
        while ch:
            ch = False
            for s in list(U):
                if not any(all(t in U for t in d) for d in acts[s]): U.discard(s); ch = True
        good = good and not U
        ctx.state(str(a), init, T); ctx.op(); ctx.trace(); ctx.outcome("accept" if good else "reject")
        try:
            nt = ("rrf_target", "done")[k % 2]; before = snap_model(sys)
            form, smap, amap = RR.reduce(sys, "init", "target") if nt == "rrf_target" else RR.reduce(sys, "init", "target", new_target_label=nt); ok = True
        except AssertionError as e: ok = False
        if ok != good: return ctx.fail("reduce %s although %s" % ("succeeds" if ok else "is refused", "fail is unreachable and there is no end component" if good else "fail is reachable or there is an end component"), init=init, T=T)
        if ok:
            crow = sorted(rrows, key=lambda x: form.system.index_by_state_action[amap[b.A[x]]])
            if list(range(len(crow))) != [form.system.index_by_state_action[amap[b.A[x]]] for x in crow]: return ctx.fail("rows")
            if form.initial != smap[b.S[init]]: return ctx.fail("initial state")
            if snap_model(sys) != before: return ctx.fail("reduce changed the given system")
            q = form.system
            if (form.initial_label, form.target_label, form.fail_label) != ("init", nt, "rf_fail"): return ctx.fail("labels of the reduced form: %s" % ((form.initial_label, form.target_label, form.fail_label),))
            if set(q.states_by_label[nt]) != {q.N - 2} or set(q.states_by_label["rf_fail"]) != {q.N - 1} or set(q.states_by_label["init"]) != {form.initial}: return ctx.fail("states of the labels of the reduced form: %s" % dict(q.states_by_label.items()))
            if q.N != m + 2 or q.C != len(crow) + 2 or set(smap) != {b.S[s] for s in keep} or set(amap) != {b.A[x] for x in rrows}: return ctx.fail("states, rows or maps of the reduced form")
            if dict(form.index_by_state_action) != {x: r for x, r in q.index_by_state_action.items() if r < q.C - 2}: return ctx.fail("index_by_state_action of the reduced form: %s" % dict(form.index_by_state_action))
            rv = q.reward_vector
            if rv is None or len(rv) != q.C or any(float(rv[q.index_by_state_action[amap[b.A[x]]]]) != float(F(R[x[0]][x[1]])) for x in rrows) or any(float(v) != 0 for v in rv[-2:]): return ctx.fail("rewards of the reduced form: %s" % (rv,))
            byidx = {ix[s]: smap[b.S[s]] for s in keep}
            values(ctx, form, ref.Ref(acts, {m}, rew), byidx, [names[x] for x in crow], None, "cbc", m)
            if ctx.fails: return
    # fromsystem on the raw structure: initial state 0, target the last state
    if n < 2 or any(len(set(map(str, A))) != len(A) for A in a): return
    spec = dict(a=a, t=case["t"], rf=False, L={"init": [0], "rrf_target": [n - 1]}, AL={}, R=[["1"] * len(A) for A in a])
    b = M.Built(spec, M.std(n)); sys = b.model(); fw = {s: set().union(*[set(ref.dist(d)) for d in a[s]]) for s in range(n)}; bw = {}
    for s in fw:
        for t in fw[s]: bw.setdefault(t, set()).add(s)
    U = set(range(n - 1)); ch = True
    while ch:
        ch = False
        for s in list(U):
            if not any(set(ref.dist(d)) <= U for d in a[s]): U.discard(s); ch = True
    good = len(a[n - 1]) == 1 and fw[n - 1] == {n - 1} and ref.reach(fw, [0]) == set(range(n)) and ref.reach(bw, [n - 1]) == set(range(n)) and not U
    try: RR.fromsystem(sys, "init"); ok = True
    except AssertionError: ok = False
    ctx.op(); ctx.outcome("fromsystem", good)
    if ok != good: return ctx.fail("fromsystem %s a model that is %s" % ("accepts" if ok else "rejects", "suitable" if good else "not suitable"))
