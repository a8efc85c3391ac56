"""C20: answers of a reachability form do not depend on the queries made before."""
from common import *
import copy

ASSUMPTIONS = ["answers of the LP solver are compared up to 1e-6 (the solver is deterministic)"]
CHEAP = ["fz.3", "fz.3+", "fz.9", "fy.3", "fy.3+", "fy.9", "fc.min.5", "fc.max.5", "chk+", "chk~", "chk-", "sub0", "sub1", "submax", "AP", "mec", "graph", "labels"]
LPS = ["prmin", "prmax", "za", "ya", "ys", "genmin", "genmax", "gen<", "qsmin", "qsmax", "milp", "milp+", "milpinf", "qslab", "same.min", "same.max", "same.lab"]
HEUR = ["h.%s.%s" % (i, m) for i in ("Frequency", "Reachability", "Combined") for m in ("min", "max")]
LPS += HEUR + ["glpk"]; CHEAP += ["draw", "reduce"]
OPS = CHEAP + LPS
ROPS = ["fz1", "fz2", "fy1", "fy2", "fcmin", "fcmax", "AP", "graph", "labels", "draw", "submin", "submax", "zs", "za", "ys", "ya", "rmin", "rmax", "qsmin", "qsmax", "milpmin", "milpmax", "milpinf"] + HEUR

def forms(tier):
    fam = [M.chain(4), M.grid(2, 2), M.ring(3), M.wide(3), M.layered(1, 2)]
    if tier == "thorough": return M.rf_enum(1, "dh") + M.rf_enum(2, "d") + M.rf_enum(2, "h", 2, 3) + M.rf_dtmcs(2, "dht") + M.rf_dtmcs(3, "h") + fam
    return M.rf_enum(1, "d") + M.rf_enum(2, "d", 2, 3) + fam

def cases(tier):
    fs = forms(tier); out = []; deep = [s["a"] for s in (M.rf_enum(1, "dh") + M.rf_enum(2, "d") if tier == "thorough" else M.rf_enum(1, "d")) + [M.ring(3)]]
    for i, s in enumerate(fs):
        ps = pres_for(len(s["a"])); p = ps[i % len(ps)]
        for first in OPS: out.append(dict(spec=s, pres=p, kind="pairs", first=first))
        if s["a"] in deep:
            for first in CHEAP: out.append(dict(spec=s, pres=p, kind="deep", first=first))
    for i, s in enumerate(fs): out.append(dict(spec=s, pres=M.std(len(s["a"])), kind="two", first="same", other=fs[(i + 1) % len(fs)]))
    R = [(a, r) for n, k, mt in ((1, "dh", 0), (2, "d" if tier == "quick" else "dh", 3)) for a in M.rew_structures(n, k, 2, mt) for r in list(M.rewards_for(a, False))[:2]]
    for i, (a, r) in enumerate(R):
        ps = pres_for(len(a)); sp = dict(a=a, rf=False, tail=1, t="dtmc" if sum(map(len, a)) == len(a) else "mdp", L={"init": [0]}, AL={}, R=r)
        for first in ROPS: out.append(dict(spec=sp, pres=ps[i % len(ps)], kind="rew", first=first))
    return out

def bounds(tier):
    return "%d reachability forms (with and without end components: %s, five structured ones); all ordered pairs of %d queries (%d LP-based, %d cheap; heuristics with all initializers and updaters, drawings and reductions among them) on a fresh form followed by the first one again; the same for %d queries on reward forms with <=2 states; the same method objects for all pairs of neighbouring forms; all sequences of 3 cheap queries for %s and the ring; after every query: the answer, earlier answers, and snapshots of form, model and matrices" % (
        len(forms(tier)), "all with 1 state, with 2 states and Dirac rows or <=3 uniform rows, DTMCs with 3 states and uniform rows" if tier == "thorough" else "all Dirac ones with 1 state, with 2 states and <=3 actions", len(OPS), len(LPS), len(CHEAP), len(ROPS), "the forms with 1 state and the Dirac ones with 2" if tier == "thorough" else "the Dirac forms with 1 state")

def dense(m):
    m = m.toarray() if hasattr(m, "toarray") else m
    return np.array(m, dtype=float)

def frz(x):
    """comparable copy of an answer"""
    if x is None: return None
    if hasattr(x, "toarray") or isinstance(x, np.ndarray): 
        d = dense(x); return ("arr", d.shape, tuple(float(v) for v in d.ravel()))
    if isinstance(x, (list, tuple)): return tuple(frz(v) for v in x)
    if isinstance(x, (bool, int, str)): return x
    if isinstance(x, (float, np.floating)): return ("num", float(x))
    if isinstance(x, (np.integer, np.bool_)): return int(x)
    return str(x)

def equal(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float): return a == b or abs(a - b) <= 1e-6
    return a == b

class Run:
    def __init__(self, case):
        spec = dict(case["spec"]); spec["L"] = dict(spec["L"], odd=list(range(1, len(spec["a"]), 2)))
        self.rew = case["kind"] == "rew"
        if self.rew:
            from switss.model import RewardReachabilityForm
            self.b = M.Built(spec, case["pres"]); self.orig = self.b.model(); self.rf = RewardReachabilityForm.fromsystem(self.orig, "init"); self.orig0 = snap_model(self.orig)
        else: self.b = M.Built(spec, case["pres"]); self.rf = self.b.rf()
        self.n = len(case["spec"]["a"]); self.given = []
        self.ec = not M.ecfree(case["spec"])
        self.same = None
    def op(self, o):
        """returns (answer, live objects)"""
        from switss.problem import MILPExact, QSHeur, Subsystem
        from switss.certification import check_farkas_certificate as chk, generate_farkas_certificate as gen
        rf = self.rf; n = self.n; C = self.b.C - (1 if self.rew else 2)
        if self.rew and not o.startswith("h."): return self.rop(o)
        if o.startswith("fz"): r = rf.fark_z_constraints({"fz.3": 0.3, "fz.3+": 0.30002, "fz.9": 0.9}[o])
        elif o.startswith("fy"): r = rf.fark_y_constraints({"fy.3": 0.3, "fy.3+": 0.30002, "fy.9": 0.9}[o])
        elif o == "fc.min.5": r = rf.fark_constraints(0.5, "min")
        elif o == "fc.max.5": r = rf.fark_constraints(0.5, "max")
        elif o == "chk+": r = chk(rf, "min", ">=", 0.0, np.zeros(n))
        elif o == "chk~": r = [chk(rf, "min", ">=", 0.001, np.zeros(n)), chk(rf, "min", ">=", 0.001, np.zeros(n), tol=0.01), chk(rf, "max", "<=", 0.0, np.zeros(n)), chk(rf, "max", "<=", 1.0, np.ones(n)), chk(rf, "min", ">=", 0.0, -np.ones(n))]
        elif o == "chk-": r = chk(rf, "max", ">=", 0.99, np.zeros(C))
        elif o in ("sub0", "sub1"):
            c = np.zeros(n); c[:] = 1.0
            if o == "sub1" and n > 1: c[[x for x in range(n) if x != self.b.S[0]][0]] = 0
            s = Subsystem(rf, c, "min", ignore_consistency_checks=True); r = (s.subsystem_mask.astype(float), str(sorted(M.triples(s.subsys.system).items())))
        elif o == "submax":
            s = Subsystem(rf, np.ones(C), "max", ignore_consistency_checks=True); r = (s.subsystem_mask.astype(float), str(sorted(M.triples(s.subsys.system).items())))
        elif o == "AP": r = (rf.A, rf.P, rf.to_target, rf.initial, rf.target_state_idx, rf.fail_state_idx, rf.target_sap_idx, rf.fail_sap_idx)
        elif o == "mec": 
            m = list(rf.state_to_mec)
            r = ([bool(rf.in_proper_ec(s)) for s in range(n)], bool(rf.is_ec_free), int(rf.nr_of_mecs), [[m[i] == m[j] for i in range(n)] for j in range(n)])
        elif o == "graph":
            m = rf.system; r = ([sorted(m.successors(s)) for s in range(m.N)], [sorted(m.predecessors(s)) for s in range(m.N)], list(map(int, m.reachable_mask({0}, "forward"))), [sorted(m.actions_by_state[s]) for s in range(m.N)], sorted(map(str, m.digraph().body)))
        elif o == "labels":
            m = rf.system; r = ([sorted(m.labels_by_state[s]) for s in range(m.N)], sorted(m.states_by_label["init"]), str(rf.index_by_state_action))
        elif o == "prmin": r = rf.pr_min()
        elif o == "prmax": r = rf.pr_max()
        elif o == "za": r = rf.max_z_state_action()
        elif o == "ya": r = rf.max_y_state_action()
        elif o == "ys": r = rf.max_y_state()
        elif o == "genmin": r = gen(rf, "min", ">=", 0.1)
        elif o == "genmax": r = gen(rf, "max", ">=", 0.1)
        elif o == "gen<": r = gen(rf, "max", "<", 0.95)
        elif o in ("qsmin", "qsmax", "milp", "milp+", "milpinf", "qslab", "same.min", "same.max", "same.lab"):
            if self.same is None: self.same = QSHeur(iterations=2, solver="cbc"), MILPExact("cbc")           # method objects that are used again
            q, x = self.same
            res = {"same.min": lambda: list(q.solveiter(rf, 0.25, "min")) + [x.solve(rf, 0.25, "min")], "same.max": lambda: list(q.solveiter(rf, 0.35, "max")) + ([] if self.ec else [x.solve(rf, 0.35, "max")]),
                   "same.lab": lambda: list(q.solveiter(rf, 0.25, "min", labels=["init", "odd"])) + [x.solve(rf, 0.25, "min", labels=["odd"])],
                   "milp+": lambda: [MILPExact("cbc").solve(rf, 0.2 + 1e-3, "min")],
                   "qsmin": lambda: list(QSHeur(iterations=2, solver="cbc").solveiter(rf, 0.2, "min")), "qsmax": lambda: list(QSHeur(iterations=2, solver="cbc").solveiter(rf, 0.2, "max")),
                   "milp": lambda: [MILPExact("cbc").solve(rf, 0.2, "min")], "milpinf": lambda: [MILPExact("cbc").solve(rf, 0.97, "min")],
                   "qslab": lambda: list(QSHeur(iterations=1, solver="cbc").solveiter(rf, 0.2, "min", labels=["init"]))}[o]()
            r = [(x.status, x.value, x.farkas_cert, None if x.subsystem is None else x.subsystem.subsystem_mask.astype(float)) for x in res]
        elif o.startswith("h."):
            import switss.problem as PB
            _, i, mode = o.split("."); u = PB.InverseResultFixedZerosUpdater if i == "Reachability" else PB.InverseResultUpdater
            res = list(QSHeur(iterations=2, initializertype=getattr(PB, "Inverse%sInitializer" % i), updatertype=u).solveiter(rf, 0.15, mode, labels=["init", "odd"] if i == "Frequency" and mode == "max" else None))
            r = [(x.status, x.value, x.farkas_cert, None if x.subsystem is None else x.subsystem.subsystem_mask.astype(float)) for x in res]
        elif o == "glpk": r = (rf.pr_min(solver="glpk"), rf.pr_max(solver="glpk"), rf.max_y_state(solver="glpk"))
        elif o == "draw":
            s = Subsystem(rf, np.ones(n) / 2, "min", ignore_consistency_checks=True); r = [sorted(map(str, g.body)) for g in (rf.system.digraph(), s.digraph(), s.digraph(show_weights=True), s.subsys.system.digraph())]
        elif o == "reduce":
            f, sm, am = type(rf).reduce(rf.system, "init", "rf_target", new_target_label="nt", new_fail_label="nf"); r = (str(sorted(sm.items())), str(sorted(am.items())), str(snap_model(f.system)))
        else: raise ValueError(o)
        return r
    def rop(self, o):
        from switss.problem import MILPExact, QSHeur, Subsystem
        rf = self.rf; n = self.n; C = self.b.C - 1
        if o in ("fz1", "fz2"): return rf.fark_z_constraints(0.3 if o == "fz1" else 2.5)
        if o in ("fy1", "fy2"): return rf.fark_y_constraints(0.3 if o == "fy1" else 2.5)
        if o in ("fcmin", "fcmax"): return rf.fark_constraints(0.75, o[2:])
        if o == "AP": return (rf.A, rf.reward_vector, rf.initial)
        if o == "graph": m = rf.system; return ([sorted(m.successors(s)) for s in range(m.N)], [sorted(m.predecessors(s)) for s in range(m.N)])
        if o == "labels": m = rf.system; return ([sorted(m.labels_by_state[s]) for s in range(m.N)], str(rf.index_by_state_action))
        if o == "draw": return sorted(map(str, rf.system.digraph().body))
        if o in ("submin", "submax"): s = Subsystem(rf, np.ones(n if o == "submin" else C), o[3:], ignore_consistency_checks=True); return (s.subsystem_mask.astype(float), str(snap_model(s.subsys.system)))
        if o in ("zs", "za", "ys", "ya"): return {"zs": rf.max_z_state, "za": rf.max_z_state_action, "ys": rf.max_y_state, "ya": rf.max_y_state_action}[o]()
        if o in ("rmin", "rmax"): return (rf.rew_min if o == "rmin" else rf.rew_max)()
        res = {"qsmin": lambda: list(QSHeur(iterations=2).solveiter(rf, 0.2, "min")), "qsmax": lambda: list(QSHeur(iterations=2).solveiter(rf, 0.2, "max")), "milpmin": lambda: [MILPExact().solve(rf, 0.4, "min")], "milpmax": lambda: [MILPExact().solve(rf, 0.4, "max")], "milpinf": lambda: [MILPExact().solve(rf, 1e4, "min")]}[o]()
        return [(x.status, x.value, x.farkas_cert, None if x.subsystem is None else x.subsystem.subsystem_mask.astype(float)) for x in res]
    def state(self):
        rf = self.rf
        if self.rew: return (snap_model(rf.system), frz((rf.A, rf.reward_vector)), str(sorted((tuple(map(int, k)), int(v)) for k, v in rf.index_by_state_action.items())), rf.initial, rf.initial_label, rf.target_label, snap_model(self.orig) == self.orig0)
        return (snap_model(rf.system), frz((rf.A, rf.P, rf.to_target)), str(sorted((tuple(map(int, k)), int(v)) for k, v in rf.index_by_state_action.items())), rf.initial, rf.initial_label, rf.target_label, rf.fail_label)
_fresh = {}
def fresh(case, o):
    k = (json.dumps(case["spec"]["a"]), json.dumps(case["pres"]), case["kind"] == "rew", json.dumps(case["spec"].get("R")))
    if _fresh.get("k") != k: _fresh.clear(); _fresh["k"] = k
    if o not in _fresh: _fresh[o] = frz(Run(case).op(o))
    return _fresh[o]

def right(case, o, f):
    """what the first answers themselves must be: a fresh form may already be affected by queries to another form"""
    sp = case["spec"]; n = len(sp["a"]); b = M.Built(dict(sp), case["pres"]); rew = case["kind"] == "rew"
    def near(vec, want, tol=1e-6): return len(vec[2]) == len(want) and all(abs(x - float(y)) <= tol * max(1, abs(float(y))) for x, y in zip(vec[2], want))
    def placed(v): return [v[s] for s in sorted(range(n), key=lambda s: b.S[s])]
    if rew:
        if o in ("zs", "rmin", "rmax"):
            w = placed(ref.restrict(sp, range(n)).rewards("max" if o == "rmax" else "min"))
            return None if near(f, w) else "%s is %s, the exact rewards are %s" % (o, f[2], list(map(float, w)))
        return None
    if o in ("prmin", "prmax"):
        w = placed(exact(sp, o[2:])); return None if near(f, w) else "%s is %s, the exact probabilities are %s" % (o, f[2], list(map(float, w)))
    rows = [r for r in b.rows if r[0] < n]; m = len(rows)
    A = np.zeros((m, n)); t = np.zeros(m)
    for k, (s, i) in enumerate(rows):
        A[k, b.S[s]] += 1
        for x, q in b.acts[s][i]:
            if x < n: A[k, b.S[x]] -= float(F(q))
            elif x == n: t[k] += float(F(q))
    thr = {"fz.3": 0.3, "fz.3+": 0.30002, "fz.9": 0.9, "fy.3": 0.3, "fy.3+": 0.30002, "fy.9": 0.9, "fc.min.5": 0.5, "fc.max.5": 0.5}.get(o)
    d = np.zeros(n); d[b.S[0]] = 1
    if o in ("fz.3", "fz.3+", "fz.9", "fc.min.5"): w = (np.vstack([A, -d]).ravel(), np.append(t, -thr))
    elif o in ("fy.3", "fy.3+", "fy.9", "fc.max.5"): w = (np.hstack([A, -t[:, None]]).T.ravel(), np.append(d, -thr))
    elif o == "AP": w = (A.ravel(), (np.array([[float(s == x) for x in range(n)] for s, i in rows for s in [b.S[s]]]) - A).ravel(), t); f = f[:3]
    else: return None
    return None if all(near(x, y, 1e-9) for x, y in zip(f, w)) else "the answer to %s is %s, documented is %s" % (o, f, [list(x) for x in w])

_right = {}
def history(case, ctx, ops):
    r = Run(case); st = r.state(); old = []; ctx.trace()
    for k, o in enumerate(ops):
        ans = r.op(o); ctx.op(); f = frz(ans); fr0 = fresh(case, o)
        if _right.get("k") != _fresh["k"]: _right.clear(); _right["k"] = _fresh["k"]
        if o not in _right:
            _right[o] = right(case, o, f)
            if _right[o]: return "after %s: %s" % (ops[:k], _right[o]), {}
        if not equal(f, fresh(case, o)): return "query %s after %s gives another answer than on a fresh form" % (o, ops[:k]), dict(got=str(f)[:600], fresh=str(fresh(case, o))[:600])
        for o2, live, fz in old:
            if not equal(frz(live), fz): return "the answer given to %s was changed by %s" % (o2, ops[k]), {}
        old.append((o, ans, f))
        if (len(ops) <= 3 or k + 1 == len(ops)) and r.state() != st: return "after %s the form or its model is changed" % (ops[:k + 1],), {}
    return None

def two(case, ctx):
    """the same method objects for two different forms"""
    S = ["same.min", "same.max", "same.lab"]; other = dict(case, spec=case["other"], pres=M.std(len(case["other"]["a"])), kind="pairs"); me = dict(case, kind="pairs")
    for x, y in itertools.product(S, repeat=2):
        a, b = Run(me), Run(other); ctx.trace(); fx, fy = frz(Run(me).op(x)), frz(Run(other).op(y)); a.op(x); b.same = a.same; ctx.op(5)
        if not equal(frz(b.op(y)), fy): return ctx.fail("%s, with method objects that solved %s for another form before, gives another answer than with new ones" % (y, x))
        if not equal(frz(a.op(x)), fx): return ctx.fail("%s, repeated after the method objects solved %s for another form, gives another answer than before" % (x, y))

def check(case, ctx):
    if case["kind"] == "two": ctx.state(str(case["spec"]["a"]), "two"); return two(case, ctx)
    ctx.state(str(case["spec"]["a"]), case["first"], case["kind"])
    first = case["first"]
    def order(ops): return ops if ctx.tier == "thorough" else [o for o in ops if ops.index(o) >= ops.index(first)]       # [a, b, a] has a before b and b before a
    NEW = HEUR + ["glpk", "draw", "reduce"]; OLD = [o for o in OPS if o not in NEW]
    if case["kind"] == "pairs": hs = [[first, o, first] for o in (OPS if ctx.tier == "thorough" else OLD if first in OLD else OLD + order(NEW))]
    elif case["kind"] == "rew": hs = [[first, o, first] for o in order(ROPS)]
    else: hs = [[first] + list(q) + [first] for q in itertools.product(CHEAP, repeat=2)]
    for h in hs:
        e = history(case, ctx, h)
        if e: return ctx.fail(e[0], **e[1])
    ctx.outcome(case["kind"], first)
