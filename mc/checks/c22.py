"""C22: every pattern of solver answers at the calls one operation makes."""
from common import *
import checks.c06 as c06

LEVEL = "fault_enumeration"
RULE = "the answers of the LP/MILP solver are choices of the environment: at every solver call of an operation the harness answers truthfully, or with one of the statuses not solved / infeasible / unbounded / undefined combined with no values, zero values or the values of the true solution, or raises a solver error; all choice sequences are explored depth first on the real code"
TECHNIQUE = "stateless exploration of the real code under all sequences of solver answers (fault injection at every solver call)"
LEVEL_NOTE = "Complete for the listed operations and models: every solver call of every operation receives every answer; trusts that pulp reports statuses through LpProblem.assignStatus and variable values."
ASSUMPTIONS = ["exceptions are an accepted report for failures of auxiliary solver calls (upper bounds, initial weights) and of certificate generation",
               "a solver that reports an optimum (status optimal) is believed"]
STATUS = {0: "notsolved", -1: "infeasible", -2: "unbounded", -3: "undefined"}
FAULTS = [(s, v) for s in (0, -1, -2, -3) for v in ("none", "zero", "true")] + [("raise", None)]

class Answers:
    """the solver below the real code; choice k at call i (0: truthful, else FAULTS[k-1])"""
    def __init__(self):
        import pulp
        self.saved = []; me = self
        def wrap(cls):
            orig = cls.__dict__["actualSolve"]
            def actualSolve(solver, lp, *a, **kw): return me.answer(orig, solver, lp, *a, **kw)
            self.saved.append((cls, orig)); cls.actualSolve = actualSolve
        todo = [pulp.LpSolver]; seen = set()
        while todo:
            c = todo.pop(); todo += c.__subclasses__()
            if c in seen: continue
            seen.add(c)
            if c.__name__ in ("PULP_CBC_CMD", "COIN_CMD", "GLPK_CMD") and "actualSolve" in c.__dict__: wrap(c)
        self.depth = 0; self.cache = {}
    def start(self, choices): self.choices = choices; self.calls = 0; self.after = 0
    def answer(self, orig, solver, lp, *a, **kw):
        import pulp
        if self.depth: return orig(solver, lp, *a, **kw)
        k = self.choices[self.calls] if self.calls < len(self.choices) else 0
        if any(self.choices[:self.calls]): self.after += 1
        self.calls += 1; self.depth += 1
        try:
            if not k: return self.truth(orig, solver, lp, *a, **kw)
            st, vals = FAULTS[k - 1]
            if st == "raise": raise pulp.PulpSolverError("injected")
            if vals == "true": self.truth(orig, solver, lp, *a, **kw)
            else:
                for v in lp.variables(): v.varValue = None if vals == "none" else 0.0
            lp.assignStatus(st)
            return st
        finally: self.depth -= 1
    def truth(self, orig, solver, lp, *a, **kw):
        """the real solver's answer; the same problem is only solved once"""
        vs = lp.variables(); o = lp.objective
        key = (type(solver).__name__, str(getattr(solver, "timeLimit", None)), lp.sense, tuple((v.name, v.lowBound, v.upBound, v.cat) for v in vs), () if o is None else tuple((v.name, c) for v, c in o.items()),
               tuple((c.sense, c.constant, tuple((v.name, x) for v, x in c.items())) for c in lp.constraints.values()))
        if key not in self.cache:
            st = orig(solver, lp, *a, **kw); self.cache[key] = (st, lp.status, lp.sol_status, {v.name: v.varValue for v in vs})
        st, status, sol, vals = self.cache[key]
        for v in vs: v.varValue = vals[v.name]
        lp.assignStatus(status, sol)
        return st
    def restore(self):
        for c, o in self.saved: c.actualSolve = o

def specs(tier):
    th = tier == "thorough"
    out = M.rf_enum(1, "d") + (M.rf_enum(2, "d") + M.rf_dtmcs(2, "dh") if th else M.rf_enum(2, "d", 2, 3))
    out += [s for s in M.families("quick") if 2 <= len(s["a"]) <= (7 if th else 4)]
    return out

def cases(tier):
    out = []
    for i, s in enumerate(specs(tier)):
        ps = pres_for(len(s["a"])) if len(s["a"]) <= 3 else M.simple_presentations(len(s["a"]))
        for mode in ("min", "max"):
            for what in ("low", "high", "above"):
                out.append(dict(kind="min", spec=s, pres=ps[i % len(ps)], mode=mode, thr=what, k=i))
            for sense in ("<=", ">"): out.append(dict(kind="cert", spec=s, pres=ps[i % len(ps)], mode=mode, sense=sense, k=i))
    out += [dict(kind="map", solver=s) for s in ("cbc", "glpk")]
    out += [dict(kind="tree", spec=s, pres=M.simple_presentations(len(s["a"]))[0], thr=t) for s in specs(tier) if s["t"] == "dtmc" for t in ("low", "above")]
    return out

def bounds(tier):
    return "%d models (reachability forms with 1-3 transient states and structured families), both modes, thresholds below, close to and above the optimum; MILPExact, QSHeur with 1-3 iterations and all initializers and updaters in turn, label groups, reward forms, generate_farkas_certificate, TreeAlgo; at every solver call all of %d answers, up to %d faulty answers per run (the second one with the values of a true solution)" % (len(specs(tier)), 1 + len(FAULTS), 2)

def explore(A, run, maxfaults=2):
    """yields (choices, outcome of run) for every choice sequence; outcome is what run returns"""
    todo = [()]
    while todo:
        ch = todo.pop(); A.start(ch); o = run(); n = A.calls
        yield ch, n, o
        if sum(1 for c in ch if c) >= maxfaults: continue
        for i in range(len(ch), n):
            for k in range(1, len(FAULTS) + 1):
                # the second faulty answer: a status with the values of a solution
                if any(ch) and FAULTS[k - 1][1] != "true": continue
                todo.append(ch + (0,) * (i - len(ch)) + (k,))

def check(case, ctx):
    A = Answers()
    try: return globals()["do_" + case["kind"]](case, ctx, A)
    finally: A.restore()

def do_map(case, ctx, A):
    """status mapping of the LP/MILP layer"""
    from switss.solver import MILP, LP
    for cls in (MILP, LP):
        for k in range(len(FAULTS)):
            m = cls(objective="max"); x = m.add_variables(2 if cls is LP else ["real", "integer"])
            m.add_constraint([(x[0], 1), (x[1], 1)], "<=", 3); m.add_constraint([(x[0], 1)], ">=", 0); m.add_constraint([(x[1], 1)], ">=", 0); m.set_objective_function([(x[0], 1), (x[1], 2)])
            A.start((0, k + 1, 0)); good = [m.solve(case["solver"])]
            try: bad = m.solve(case["solver"])
            except Exception as e:
                bad = None
                if FAULTS[k][0] != "raise": return ctx.fail("%s with answer %s: %s: %s" % (cls.__name__, FAULTS[k], type(e).__name__, e))
            good.append(m.solve(case["solver"])); ctx.op(3); ctx.trace(); ctx.state(cls.__name__, k); ctx.outcome("map", FAULTS[k][0])
            if FAULTS[k][0] == "raise":
                if bad is not None: return ctx.fail("%s: the solver raised an error, reported status %s" % (cls.__name__, bad.status))
            elif bad.status != STATUS[FAULTS[k][0]]: return ctx.fail("%s: solver answered %s, reported %s" % (cls.__name__, STATUS[FAULTS[k][0]], bad.status))
            for g in good:
                if g.status != "optimal" or not close(g.value, 6): return ctx.fail("%s: status %s value %s around a failure" % (cls.__name__, g.status, g.value))

def threshold(spec, mode, which, rew=False):
    vals = ref.subset_values(spec, mode, rew=rew); top = max(vals.values())
    low = min([v for v in vals.values() if v > 0], default=F(1, 2)) / 2
    t = {"low": low, "high": top * F(19, 20), "above": top + (F(1) if rew else (1 - top) / 2)}[which]
    return t, vals

def methods(PB, k):
    from switss import problem as PB
    I = ("AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer"); U = ("InverseResultUpdater", "InverseResultFixedZerosUpdater")
    out = [("exact", PB.MILPExact(solver="cbc"))]
    for j in range(2): out.append(("qs", PB.QSHeur(iterations=1 + (k + j) % 3, initializertype=getattr(PB, I[(k + 2 * j) % 4]), updatertype=getattr(PB, U[(k // 2 + j) % 2]), solver="cbc" if (k + j) % 3 else "glpk")))
    return out

def do_min(case, ctx, A):
    from switss import problem as PB
    spec = case["spec"]; n = len(spec["a"]); mode = case["mode"]; k = case["k"]
    setups = [(spec, None, False)]
    if k % 2: lab = dict(A=list(range(0, n, 2)), B=list(range(n))); setups.append((dict(spec, L=dict(spec["L"], **lab)), ["A", "B"], False))
    a = M.nofail(spec)
    if M.rf_valid(a) and M.ecfree(dict(a=a)) and k % 2 == 0:
        setups.append((dict(a=a, rf=False, tail=1, t=spec["t"], L={"init": [0]}, AL={}, R=[[str(1 + (s + i) % 3) for i in range(len(a[s]))] for s in range(n)]), None, True))
    for spec, labels, rew in setups:
        thr, vals = threshold(spec, mode, case["thr"], rew)
        if thr > 1 and not rew or thr <= F(1, 1000): continue
        b = M.Built(spec, case["pres"]); inv = {b.S[s]: s for s in range(n)}
        if rew:
            from switss.model import RewardReachabilityForm as RR
            form = RR.fromsystem(b.model(), "init")
        else: form = b.rf()
        ok = [s for s, v in vals.items() if v >= thr]
        cost = len if labels is None else lambda S: sum(1 for l in labels if set(spec["L"][l]) & set(S))
        for name, method in methods(PB, k):
            if name == "exact" and mode == "max" and c06.proper_ec_states(dict(case["spec"])) and not rew: continue
            ctx.state(str(spec["a"]), str(labels), rew, mode, case["thr"], name, str(method))
            def run():
                rs = []; err = None
                try:
                    for r in method.solveiter(form, float(thr), mode, labels=labels): rs.append(r)
                except Exception as e: err = e
                return rs, err, A.after
            low, _ = threshold(spec, mode, "low", rew); A.start(()); aux = -len(list(method.solveiter(form, float(low), mode, labels=labels))) ; aux += A.calls
            for ch, calls, (rs, err, after) in explore(A, run):
                ctx.op(calls); ctx.trace()
                what = "%s, %s mode, threshold %s%s%s, solver answers %s: " % (method, mode, float(thr), " labels" if labels else "", " rewards" if rew else "", ["ok" if not c else FAULTS[c - 1] for c in ch])
                st = [r.status for r in rs]
                if not ch:
                    if err: return ctx.fail(what + "%s: %s" % (type(err).__name__, err))
                bad = next((i for i, c in enumerate(ch) if c), None)
                fault = None if bad is None else FAULTS[ch[bad] - 1]
                ctx.outcome(name, mode, None if fault is None else fault[0], "err" if err else "/".join(st))
                # whatever was answered: successes are genuine
                for r in rs:
                    if r.status != "success":
                        if r.subsystem is not None or r.farkas_cert is not None: return ctx.fail(what + "status %s comes with a witness" % r.status)
                        continue
                    S = frozenset(inv[i] for i in range(n) if r.subsystem.subsystem_mask[i])
                    if vals[S] < thr: return ctx.fail(what + "success with %s, which does not reach the threshold" % sorted(S))
                    if name == "exact" and abs(r.value - min(map(cost, ok))) > 1e-6: return ctx.fail(what + "success with value %s, the minimum is %d" % (r.value, min(map(cost, ok))))
                if "success" in st and any(x != "success" for x in st[:-1]): return ctx.fail(what + "results %s" % st)
                if sum(1 for x in st if x != "success") > 1: return ctx.fail(what + "goes on after a failure: %s" % st)
                if bad is None: continue
                if "infeasible" in st and ok and all(FAULTS[c - 1][0] != -1 for c in ch if c): return ctx.fail(what + "reported infeasible, although the threshold can be reached and the solver never said so")
                if bad >= aux:                                         # a step's own solver call
                    j = bad - aux
                    if after: return ctx.fail(what + "the solver is called again after a failed step")
                    if fault[0] == "raise":
                        if st.count("success") > j: return ctx.fail(what + "results %s after a solver error in step %d" % (st, j))
                        continue
                    if err: return ctx.fail(what + "%s: %s" % (type(err).__name__, err))
                    if st != ["success"] * j + [STATUS[fault[0]]]: return ctx.fail(what + "results %s" % st)
                elif not rs and err is None: return ctx.fail(what + "no result at all")

def do_cert(case, ctx, A):
    from switss.certification import generate_farkas_certificate
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); rf = b.rf(); Ad, bb = ref.farkas(spec); rows = [r for r in b.rows if r[0] < n]
    cond = c06.conditions(spec, b, Ad, bb, rows, c06.proper_ec_states(spec)); mode, sense = case["mode"], case["sense"]
    e = exact(spec, mode)[0]
    for thr in sorted({e / 2, (1 + e) / 2, e}):
        true = thr >= e if sense[0] == "<" else thr < e
        def run():
            try: return generate_farkas_certificate(rf, mode, sense, float(thr), solver="cbc" if case["k"] % 3 else "glpk")
            except Exception as x: return x
        for ch, calls, v in explore(A, run):
            ctx.op(calls); ctx.trace(); ctx.state(str(spec["a"]), mode, sense, float(thr))
            what = "%s%s%s, solver answers %s: " % (mode, sense, float(thr), ["ok" if not c else FAULTS[c - 1] for c in ch])
            ctx.outcome("cert", "error" if isinstance(v, Exception) else "none" if v is None else "vector", len(ch) > 0)
            if isinstance(v, Exception):
                if not ch: return ctx.fail(what + "%s: %s" % (type(v).__name__, v))
                continue
            if v is None: continue
            c = np.asarray(v, dtype=float); w = np.array(b.by_state(c)) if (mode, sense[0]) in (("min", ">"), ("max", "<")) else c
            viol, t, zero = cond(mode, sense, float(thr), w)
            if not max(viol, t, zero) < 4e-5: return ctx.fail(what + "returned a vector that is no certificate (%s)" % c)
            if not true and abs(e - thr) > F(1, 1000): return ctx.fail(what + "returned a vector for a false claim")

def do_tree(case, ctx, A):
    import switss.problem.tree_algo as T
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); rf = b.rf(); thr, vals = threshold(spec, "min", case["thr"])
    if thr > 1 or thr <= F(1, 1000): return
    ok = [s for s, v in vals.items() if v >= thr]; best = min(map(len, ok), default=None); missing = object()
    saved = getattr(T, "min_witnesses_from_tree_decomp", missing)
    try:
        for ub in (None, n):
            for answer in (-1, best):
                called = []
                def stub(rform, partition, threshold, known_upper_bound=None, timeout=None, **kw): called.append((partition, threshold, known_upper_bound)); return -1 if answer is None else answer
                T.min_witnesses_from_tree_decomp = stub
                part = [list(range(n))]
                def run():
                    del called[:]; rs = []; err = None
                    try:
                        for r in T.TreeAlgo(part, known_upper_bound=ub).solveiter(rf, float(thr), "min"): rs.append(r)
                    except Exception as e: err = e
                    return rs, err, list(called)
                for ch, calls, (rs, err, cl) in explore(A, run, 1):
                    ctx.op(calls + len(cl)); ctx.trace(); ctx.state("tree", str(spec["a"]), case["thr"], ub, answer)
                    st = [r.status for r in rs]; ctx.outcome("tree", answer == -1, len(ch) > 0, "err" if err else "/".join(st))
                    what = "TreeAlgo, threshold %s, upper bound %s, decomposition algorithm answers %s, solver answers %s: " % (float(thr), ub, answer, ["ok" if not c else FAULTS[c - 1] for c in ch])
                    if len(rs) > 1 or not rs and not err: return ctx.fail(what + "results %s" % st)
                    if "infeasible" in st and ok and all(FAULTS[c - 1][0] != -1 for c in ch if c): return ctx.fail(what + "reported infeasible, although the threshold can be reached and the solver never said so")
                    if "success" in st:
                        if not cl or answer in (-1, None): return ctx.fail(what + "success without a solution")
                        if rs[0].value != answer: return ctx.fail(what + "value %s" % rs[0].value)
                    if not ch:
                        if err: return ctx.fail(what + "%s: %s" % (type(err).__name__, err))
                        if ub is None and not ok:
                            if st != ["infeasible"] or cl: return ctx.fail(what + "results %s for a threshold that cannot be reached" % st)
                        elif st != [("notsolved" if answer in (-1, None) else "success")]: return ctx.fail(what + "results %s" % st)
                        elif cl[0][0] != part or abs(cl[0][1] - float(thr)) > 1e-12 or (ok and cl[0][2] < best): return ctx.fail(what + "the algorithm is called with %s" % (cl[0],))
    finally:
        if saved is missing: del T.min_witnesses_from_tree_decomp
        else: T.min_witnesses_from_tree_decomp = saved
