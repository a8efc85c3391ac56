"""C35: requests outside the documented domain are rejected, requests on its boundary are not, and rejections have no effect."""
from common import *
import checks.c06 as c06

TECHNIQUE = "exhaustive enumeration of bounded models x all public operations x all invalid (and boundary) values of each argument on the real code; after every rejection the objects are compared with their state before and still answer correctly"
ASSUMPTIONS = ["a request is rejected by raising any exception, before or while the first result is asked for; which one is not judged",
               "invalid values are those that the documentation excludes and for which no answer could be right"]
NAN, INF = float("nan"), float("inf")
THR = [-1e-12, -0.1, -1, -INF, NAN, None]                   # never a threshold
PTHR = [1 + 1e-12, 1.1, 2, INF]                             # no probability
MODES = ["MIN", "mean", "", None, 0, "minmax"]
SENSES = ["=", "==", "=>", "", None]

def cases(tier):
    th = tier == "thorough"; out = []
    S = M.rf_enum(1, "dht") + M.rf_enum(2, "dh", 2, 0 if th else 3) + (M.rf_enum(3, "d", 2, 4) if th else M.rf_dtmcs(3, "d")[::3]) + [s for s in M.families("quick") if len(s["a"]) <= 5]
    for i, c in enumerate(rf_cases(S)):
        for part in (0, 1, 2): out.append(dict(c, kind="form", part=part, k=i))
    R = [(a, r) for n, mt in ((1, 0), (2, 3)) for a in M.rew_structures(n, "dh", 2, mt) for r in list(M.rewards_for(a, False))[:4 if th else 2]]
    for i, (a, r) in enumerate(R): ps = pres_for(len(a)); out.append(dict(kind="rew", a=a, R=r, t="dtmc" if sum(map(len, a)) == len(a) else "mdp", pres=ps[i % len(ps)]))
    out += [dict(kind="lp", n=n, cons=c, obj=o, cls=k) for n in (0, 1, 2, 3) for c in (0, 1, 2) for o in (False, True) for k in ("MILP", "LP")]
    out += [dict(kind="misc", k=k) for k in range(3)]
    return out

def bounds(tier):
    th = tier == "thorough"
    return "forms: 1 transient state, 2 states with %s actions, some 3-state ones, structured families with <=5 states, reward forms with <=2 states; thresholds %s (and %s for probabilities), modes %s, senses %s, certificate vectors of all wrong lengths 0..C and with nan (infinity: for false claims) at every position; solver layer: problems with 0-3 variables, 0-2 constraints, with and without objective; every invalid index, coefficient, right-hand side, sense, domain, solver, timeout" % ("all" if th else "<=3", THR, PTHR, MODES, SENSES)

def check(case, ctx): return globals()["do_" + case["kind"]](case, ctx)

def rejected(ctx, what, f, before=None, snap=None):
    """whether f() raises and leaves everything as it was"""
    ctx.op()
    try: r = f()
    except Exception as e:
        ctx.outcome("rejected")
        if snap is not None and snap() != before: ctx.fail(what + " is rejected (%s), but changed the object" % type(e).__name__); return False
        return True
    ctx.fail(what + " is answered with %s" % (repr(r)[:120],)); return False

def lazily(it):
    return list(it)

def do_form(case, ctx):
    from switss import problem as PB, certification as CT
    from switss.model import ReachabilityForm
    spec = dict(case["spec"]); n = len(spec["a"]); spec["L"] = dict(spec["L"], A=[0]); b = M.Built(spec, case["pres"]); rf = b.rf(); C = b.C - 2; k = case["k"]; part = case["part"]
    ctx.state(str(spec["a"]), str(case["pres"])); ctx.trace()
    def snap(): return snap_model(rf.system), rf.initial
    before = snap(); dim = dict(min=n, max=C); rej = lambda what, f: rejected(ctx, what, f, before, snap)
    ecs = c06.proper_ec_states(spec)
    methods = [PB.MILPExact(), PB.QSHeur(iterations=2)]
    if part == 0:       # thresholds
        for t in THR + PTHR:
            for mode in ("min", "max"):
                for s in ("<=", "<", ">=", ">"):
                    z = n if (mode == "min") == (s in (">=", ">")) else C
                    if not rej("check_farkas_certificate(%s, %s, threshold %s)" % (mode, s, t), lambda: CT.check_farkas_certificate(rf, mode, s, t, np.zeros(z))): return
                    if not rej("generate_farkas_certificate(%s, %s, threshold %s)" % (mode, s, t), lambda: CT.generate_farkas_certificate(rf, mode, s, t)): return
                for m in methods:
                    for lab in (None, ["A"]):
                        if not rej("%s.solve(threshold %s, %s, labels=%s)" % (m, t, mode, lab), lambda: m.solve(rf, t, mode, labels=lab)): return
                        if not rej("%s.solveiter(threshold %s, %s, labels=%s)" % (m, t, mode, lab), lambda: lazily(m.solveiter(rf, t, mode, labels=lab))): return
        for mode in ("min", "max"):           # the boundary belongs to the domain
            e = exact(spec, mode)[0]
            for t in (0, 1, 0.0, 1.0, True, np.float64(1)):
                for s in ("<=", ">="):
                    z = n if (mode == "min") == (s == ">=") else C
                    r = CT.check_farkas_certificate(rf, mode, s, t, np.zeros(z)); ctx.op()
                    if s == ">=" and bool(r) != (t == 0): return ctx.fail("check_farkas_certificate(%s, >=, %s, zero vector) = %s" % (mode, t, r))
                if mode == "max" and ecs: continue
                for m in methods:
                    r = m.solve(rf, t, mode); ctx.op()
                    if t and e < 1 - 1e-6 and r.status == "success": return ctx.fail("%s.solve(threshold %s, %s): success, the probability is %s" % (m, t, mode, e))
                    if not t and r.status != "success": return ctx.fail("%s.solve(threshold 0, %s): %s" % (m, mode, r.status))
    elif part == 1:     # modes, senses
        from switss.problem.formulations import groups_from_labels as gl, construct_MILP as cm
        from switss.utils import InvertibleDict
        kw = dict(reachability_form=rf, indicator_to_group=InvertibleDict({C: {0}}))
        ops = [("fark_constraints", lambda m: rf.fark_constraints(0.5, m)), ("certificate_size", lambda m: PB.certificate_size(rf, m)), ("groups_from_labels", lambda m: gl(rf, m)),
               ("construct_MILP", lambda m: cm(rf, 0.5, m, relaxed=True)), ("construct_MILP with labels", lambda m: cm(rf, 0.5, m, labels=["A"], relaxed=True)),
               ("InverseReachabilityInitializer", lambda m: PB.InverseReachabilityInitializer(mode=m, **kw)), ("InverseResultUpdater", lambda m: PB.InverseResultUpdater(mode=m, **kw))]
        for what, f in ops:
            for mode in ("min", "max"):
                try: f(mode); ctx.op()
                except Exception as x: return ctx.fail("%s(mode %s): %s: %s" % (what, mode, type(x).__name__, x))
        for mode in MODES:
            for s in ("<=", ">"):
                for z in (n, C):
                    if not rej("check_farkas_certificate(mode %r)" % (mode,), lambda: CT.check_farkas_certificate(rf, mode, s, 0.5, np.zeros(z))): return
                if not rej("generate_farkas_certificate(mode %r)" % (mode,), lambda: CT.generate_farkas_certificate(rf, mode, s, 0.5)): return
            for m in methods:
                if not rej("%s.solve(mode %r)" % (m, mode), lambda: m.solve(rf, 0.5, mode)): return
                if not rej("%s.solveiter(mode %r)" % (m, mode), lambda: lazily(m.solveiter(rf, 0.5, mode))): return
            for z in (n, C):
                if not rej("Subsystem(certform %r)" % (mode,), lambda: PB.Subsystem(rf, np.ones(z), mode)): return
            for what, f in ops:
                if not rej("%s(mode %r)" % (what, mode), lambda: f(mode)): return
        for s in SENSES:
            for mode in ("min", "max"):
                for z in (n, C):
                    if not rej("check_farkas_certificate(%s, sense %r)" % (mode, s), lambda: CT.check_farkas_certificate(rf, mode, s, 0.5, np.zeros(z))): return
                if not rej("generate_farkas_certificate(%s, sense %r)" % (mode, s), lambda: CT.generate_farkas_certificate(rf, mode, s, 0.5)): return
        for m in ("PuLP", "cbc", "", None):
            if not rej("construct_MILP(modeltype_str %r)" % (m,), lambda: PB.construct_MILP(rf, 0.5, "min", modeltype_str=m)): return
        for m in ("CBC", "", None, "scip"):
            t = float(min(exact(spec, "min")[0], 1)) / 2
            if not rej("MILPExact(solver=%r)" % (m,), lambda: PB.MILPExact(solver=m).solve(rf, t, "min")): return
            if not rej("QSHeur(solver=%r)" % (m,), lambda: PB.QSHeur(solver=m).solve(rf, t, "min")): return
            if not rej("generate_farkas_certificate(solver=%r)" % (m,), lambda: CT.generate_farkas_certificate(rf, "min", ">=", t, solver=m)): return
            if not rej("pr_min(solver=%r)" % (m,), lambda: rf.max_z_state(solver=m)): return
            if not rej("pr_max(solver=%r)" % (m,), lambda: rf.max_y_state_action(solver=m)): return
        for t in (1.5, "3", [1]):
            if not rej("MILPExact.solve(timeout=%r)" % (t,), lambda: PB.MILPExact().solve(rf, 0.01, "min", timeout=t)): return
        for lab in (["nolabel"], ["A", "nolabel"]):       # a label of no state is no label of the model: it never helps
            for m in methods:
                try: r = m.solve(rf, 0.0, "min", labels=lab); ctx.op()
                except Exception: continue
                if r.status == "success" and r.value not in (0, 1): return ctx.fail("%s.solve(labels=%s): value %s" % (m, lab, r.value))
    else:               # vectors
        for mode in ("min", "max"):
            for z in range(0, b.C + 2):
                if z != dim[mode] and not rej("Subsystem(%s, vector of length %d)" % (mode, z), lambda: PB.Subsystem(rf, np.ones(z), mode)): return
                for s in ("<=", "<", ">=", ">"):
                    if z == (n if (mode == "min") == (s in (">=", ">")) else C): continue
                    for t in (0, 0.5, 1):
                        for v in (np.zeros(z), np.ones(z)):
                            if not rej("check_farkas_certificate(%s, %s, vector of length %d)" % (mode, s, z), lambda: CT.check_farkas_certificate(rf, mode, s, t, v)): return
            for s in ("<=", "<", ">=", ">"):     # no number, no certificate
                z = n if (mode == "min") == (s in (">=", ">")) else C
                for t in (0, 0.5, 1):
                    for base in (0.0, 1.0):
                        for i in range(z):
                            for x in (NAN, INF, -INF):
                                v = np.full(z, base); v[i] = x; ctx.op()
                                try: r = CT.check_farkas_certificate(rf, mode, s, t, v)
                                except Exception: continue
                                val = exact(spec, mode)[0]; true = abs(val - F(t)) < F(1, 1000) or (val < t if s[0] == "<" else val > t)
                                if r and (x != x or not true): return ctx.fail("check_farkas_certificate(%s, %s, %s) accepts the vector %s" % (mode, s, t, v))
        for what, x in (("the model instead of the form", rf.system), ("nothing", None), ("a string", "rf")):
            for mode in ("min", "max"):
                if not rej("Subsystem of " + what, lambda: PB.Subsystem(x, np.ones(dim[mode]), mode)): return
                for m in methods:
                    if not rej("%s.solve of %s" % (m, what), lambda: m.solve(x, 0.1, mode)): return
        if spec["t"] == "mdp":
            import switss.problem.tree_algo as T
            missing = object(); saved = getattr(T, "min_witnesses_from_tree_decomp", missing); T.min_witnesses_from_tree_decomp = lambda *a, **kw: n
            try:
                for ub in (n, 1):
                    if not rej("TreeAlgo for an MDP", lambda: lazily(PB.TreeAlgo([set(range(n))], known_upper_bound=ub).solveiter(rf, 0.01, "min"))): return
            finally:
                if saved is missing: del T.min_witnesses_from_tree_decomp
                else: T.min_witnesses_from_tree_decomp = saved
        if ecs:
            t = float(exact(spec, "max")[0]) / 2; r = None
            try: r = PB.MILPExact().solve(rf, t, "max")
            except Exception: ctx.outcome("proper end component")
            if r is not None and r.status == "infeasible": return ctx.fail("exact maximal minimisation of a form with proper end components: infeasible, although the probability is %s" % exact(spec, "max")[0])
        for kw in (dict(initial_label="A", target_label="A"), dict(fail_label="rf_target"), dict(initial_label="nolabel"), dict(target_label="nolabel"), dict(fail_label="nolabel")):
            if not rej("ReachabilityForm with %s" % kw, lambda: ReachabilityForm(rf.system, **dict(dict(initial_label="init"), **kw))): return
        for args in (("init", "nolabel"), ("nolabel", "rf_target")):
            if not rej("reduce%s" % (args,), lambda: ReachabilityForm.reduce(rf.system, *args, new_target_label="nt", new_fail_label="nf")): return
        for kw in (dict(new_target_label="A"), dict(new_fail_label="A"), dict(new_target_label="rf_target"), dict(new_fail_label="rf_target")):
            if not rej("reduce with %s, which exists" % kw, lambda: ReachabilityForm.reduce(rf.system, "init", "rf_target", **dict(dict(new_target_label="nt", new_fail_label="nf"), **kw))): return
    e = exact(spec, "min")[0]             # and everything still works
    if not close(by_init(rf, rf.pr_min()), e): return ctx.fail("after rejected requests pr_min is %s, expected %s" % (rf.pr_min(), e))
    if e > F(1, 100):
        r = PB.MILPExact().solve(rf, float(e) * 0.999, "min")
        if r.status != "success": return ctx.fail("after rejected requests MILPExact: %s" % r.status)
        c = CT.generate_farkas_certificate(rf, "min", ">=", float(e) * 0.99)
        if c is None and not ecs: return ctx.fail("after rejected requests there is no certificate for a true claim")

def by_init(rf, v):
    i = rf.initial; i = next(iter(i)) if isinstance(i, (set, frozenset)) else i
    return v[i]

def do_rew(case, ctx):
    from switss import problem as PB
    from switss.model import RewardReachabilityForm as RR
    a = case["a"]; n = len(a); spec = dict(a=a, rf=False, tail=1, t=case["t"], L={"init": [0]}, AL={}, R=case["R"])
    b = M.Built(spec, case["pres"]); form = RR.fromsystem(b.model(), "init"); ctx.state(str(a), str(case["R"]), str(case["pres"])); ctx.trace()
    def snap(): return snap_model(form.system)
    before = snap(); rej = lambda what, f: rejected(ctx, what, f, before, snap)
    for m in (PB.MILPExact(), PB.QSHeur(iterations=2)):
        for mode in ("min", "max"):
            for t in THR:
                if not rej("%s.solve(threshold %s, %s) of a reward form" % (m, t, mode), lambda: m.solve(form, t, mode)): return
                if not rej("%s.solveiter(threshold %s, %s) of a reward form" % (m, t, mode), lambda: lazily(m.solveiter(form, t, mode))): return
            ex = max(ref.subset_values(spec, mode, rew=True).values())
            for t in (0, 1, 1 + 1e-12, 1.1, 2, 7.5):          # rewards are not bounded by 1
                if abs(ex - F(t)) < F(1, 1000) and t: continue
                r = m.solve(form, t, mode); ctx.op(); ctx.outcome(mode, t, r.status)
                if (r.status == "success") != (ex >= F(t)): return ctx.fail("%s.solve(threshold %s, %s): %s, the expected reward is %s" % (m, t, mode, r.status, float(ex)))
        for mode in MODES:
            if not rej("%s.solve(mode %r) of a reward form" % (m, mode), lambda: m.solve(form, 0.5, mode)): return
    for mode in MODES:
        if not rej("fark_constraints(mode %r) of a reward form" % (mode,), lambda: form.fark_constraints(0.5, mode)): return
    def plain(**kw): return M.Built(dict(spec, **kw), case["pres"]).model()
    for what, x in (("without rewards", plain(R=None)), ("no model", None), ("a form", form)):
        if not rej("reward form of a model " + what, lambda: RR.fromsystem(x, "init")): return
    x = plain(); both = plain(L={"init": [0], "nobody": [], "two": [0, n]})
    for kw in (dict(initial_label="nolabel"), dict(initial_label="nobody"), dict(initial_label="two"), dict(initial_label="rrf_target", target_label="rrf_target"), dict(target_label="init"), dict(target_label="nolabel"), dict(target_label="nobody"), dict(target_label="two")):
        if not rej("reward form with %s" % kw, lambda: RR.fromsystem(both, **dict(dict(initial_label="init"), **kw))): return
        kw = dict(dict(initial_label="init", target_label="rrf_target"), **kw)
        if "two" not in (kw["initial_label"], kw["target_label"]) or kw["target_label"] != "two":
            if kw["initial_label"] != kw["target_label"] and kw["target_label"] != "init" and not rej("reduction with %s" % kw, lambda: RR.reduce(both, kw["initial_label"], kw["target_label"], new_target_label="nt")): return
    try: RR.fromsystem(both, "init"); RR.fromsystem(x, "init"); ctx.op(2)
    except Exception as e: return ctx.fail("a suitable model is rejected: %s" % e)

def do_lp(case, ctx):
    from switss import solver as SV
    n = case["n"]; cls = getattr(SV, case["cls"]); ctx.state(str(case)); ctx.trace()
    def build():
        p = cls(objective="max")
        for i in range(n): p.add_variables_w_bounds([("real" if case["cls"] == "LP" or i % 2 == 0 else "integer", 0, 3 + i)])
        for j in range(case["cons"]):
            if n: p.add_constraint([(i, 1) for i in range(n)], "<=", 4 + j)
        if case["obj"] and n: p.set_objective_function([(i, 1 + i) for i in range(n)])
        return p
    def answer(p):
        if not n: return None
        r = p.solve(); return r.status, None if r.value is None else round(r.value, 6), len(r.result_vector)
    want = answer(build()); p = build(); bad = []
    badpairs = [(n, 1), (n + 3, 1), (-1, 1), (-n - 1, 1), (0.5, 1), (None, 1), ("x0", 1)] + ([(0, NAN), (0, None), (0, "1"), (n - 1, NAN)] if n else [])
    for i, pr in enumerate(badpairs):
        pr = tuple(pr); rest = [(0, 1)] if n else []
        for e in ([pr], rest + [pr], [pr] + rest):
            bad.append(("objective %s" % (e,), lambda e=e: p.set_objective_function(e)))
            bad.append(("constraint %s" % (e,), lambda e=e, i=i: p.add_constraint(e, ("<=", "=", ">=")[i % 3], -5)))
    for s in ("<", ">", "==", "=>", "", None, 0): bad.append(("sense %r" % (s,), lambda s=s: p.add_constraint([(0, 1)] if n else [], s, -5)))
    for r in (NAN, None, "1", [1]): bad.append(("right-hand side %r" % (r,), lambda r=r: p.add_constraint([(0, 1)] if n else [], "<=", r)))
    for d in ("int", "Real", "", None, 0): bad += [("domain %r" % (d,), lambda d=d: p.add_variables([d])), ("domain %r with bounds" % (d,), lambda d=d: p.add_variables_w_bounds([(d, 0, 1)]))]
    for s in ("CBC", "scip", "", None): bad.append(("solver %r" % (s,), lambda s=s: p.solve(solver=s)))
    for t in (0.5, "1", [3], 2.0): bad.append(("timeout %r" % (t,), lambda t=t: p.solve(timeout=t)))
    for c in (case["cons"] if n else 0, 7, -1): bad.append(("removal of constraint %s" % c, lambda c=c: p.remove_constraint(c)))
    for what, f in bad:
        if not rejected(ctx, "%s with %d variables and %d constraints: %s" % (case["cls"], n, case["cons"], what), f): return
    got = answer(p)
    if got != want: return ctx.fail("%s with %d variables: after rejected operations the answer is %s, before it was %s" % (case["cls"], n, got, want))
    for o in ("Min", "maximize", "", None, 1):
        if not rejected(ctx, "%s(objective=%r)" % (case["cls"], o), lambda: cls(objective=o)): return
        if not rejected(ctx, "%s.from_coefficients(objective=%r)" % (case["cls"], o), lambda: cls.from_coefficients(*([np.eye(2), np.ones(2), np.ones(2)] + ([["real"] * 2] if case["cls"] == "MILP" else [])), objective=o)): return
    for s in ("<", "==", "", None):
        if not rejected(ctx, "%s.from_coefficients(sense=%r)" % (case["cls"], s), lambda: cls.from_coefficients(*([np.eye(2), np.ones(2), np.ones(2)] + ([["real"] * 2] if case["cls"] == "MILP" else [])), sense=s)): return
    for d in (["real", "foo"], ["foo", "real"], [None, "real"]):
        if case["cls"] == "MILP" and not rejected(ctx, "from_coefficients(domains=%s)" % d, lambda: cls.from_coefficients(np.eye(2), np.ones(2), np.ones(2), d)): return
    for A, bb, o in ((np.eye(2), np.array([1, NAN]), np.ones(2)), (np.eye(2), np.ones(2), np.array([NAN, 1])), (np.array([[1, NAN], [0, 1]]), np.ones(2), np.ones(2))):
        if not rejected(ctx, "%s.from_coefficients with nan" % case["cls"], lambda: cls.from_coefficients(*([A, bb, o] + ([["real"] * 2] if case["cls"] == "MILP" else [])))): return

def do_misc(case, ctx):
    from switss import solver as SV
    from switss.model import DTMC, MDP
    from switss.utils import InvertibleDict
    ctx.state(case["k"]); ctx.trace()
    if case["k"] == 0:
        for s in ("success", "Optimal", "", None, 1, -1):
            if not rejected(ctx, "SolverResult(%r)" % (s,), lambda: SV.SolverResult(s, np.zeros(1), 0)): return
        for s in ("optimal", "infeasible", "unbounded", "undefined", "notsolved"):
            r = SV.SolverResult(s, np.ones(2), 2.0); ctx.op()
            if r.status != s or r.value != 2.0 or list(r.result_vector) != [1, 1]: return ctx.fail("SolverResult(%s) = %s" % (s, r))
    elif case["k"] == 1:
        for d in (None, [], [(1, {2})], {1: [2]}, {1: (2,)}, {1: 2}, {1: {2}, 3: [4]}, {1: {2: 3}}, {1: frozenset({2})}):
            if not rejected(ctx, "InvertibleDict(%s)" % (d,), lambda: InvertibleDict(d)): return
        for x in (None, 0, 1, "True"):
            if not rejected(ctx, "InvertibleDict(is_default=%r)" % (x,), lambda: InvertibleDict({1: {2}}, is_default=x)): return
        for inv in (False, True):
            for key, item in ((1, 3), (2, 2), (5, 5), (2, 1)):
                D = InvertibleDict({1: {2}, 4: {3}})
                if inv: D.inv
                if not rejected(ctx, "removing %s, %s" % (key, item), lambda: D.remove(key, item), ({1: {2}, 4: {3}}, {2: {1}, 3: {4}}), lambda: ({k: v for k, v in D.items() if v}, {k: v for k, v in D.inv.items() if v})): return
        for key in (2, "1", None):
            if not rejected(ctx, "reading key %r" % (key,), lambda: InvertibleDict({1: {2}})[key]): return
    else:
        for P in ([[1.0, 0.0]], [[0.5, 0.5, 0.0], [0, 1.0, 0]], [[1.0], [1.0]]):
            if not rejected(ctx, "DTMC with matrix %s" % P, lambda: DTMC(P)): return
        for ibsa in ({(0, 1): 0, (1, 0): 1}, {(0, 0): 0, (1, 2): 1}, {(0, 0): 0, (0, 1): 1}):
            if not rejected(ctx, "DTMC with actions %s" % ibsa, lambda: DTMC([[0.5, 0.5], [0, 1.0]], index_by_state_action=ibsa)): return
