"""C29: gurobi and cplex, with stand-ins that have their documented interfaces and answer truthfully."""
from common import *
import checks.c04 as c04, checks.c07 as c07, checks.c08 as c08, checks.c09 as c09, checks.c10 as c10, checks.c12 as c12, checks.c13 as c13, checks.c21 as c21

LEVEL_NOTE = "The solvers are not installed: a gurobipy module with the documented interface (mc/fakes/gurobi.py; HiGHS below, indicator constraints by branching over their binaries) and pulp's GUROBI_CMD/CPLEX_PY classes answering through cbc take their place. What is explored is everything above that interface; that the real solvers behave as documented is trusted."
ASSUMPTIONS = ["gurobi and cplex behave as documented: the stand-ins answer truthfully with HiGHS and cbc", "thresholds as in C08/C10/C13"]

def setup(scratch):
    import fakes.gurobi
    fakes.gurobi.install()

def small(tier):
    th = tier == "thorough"
    ec2 = [s for s in M.rf_enum(2, "dh") if not M.ecfree(s)]
    return dict(all2=rf_cases(M.rf_enum(2, "dh", 2, 3)), ec2=rf_cases(ec2), one=rf_cases(M.rf_enum(1, "dhtn"), presall=True), few=rf_cases(M.rf_enum(1, "dh"), simple=True) + rf_cases(M.rf_enum(2, "d")),
                mc3=rf_cases(M.rf_dtmcs(3, "dh")), h3=rf_cases(M.rf_enum(3, "h", 2, 4)), fam=rf_cases([s for s in M.families(tier) if len(s["a"]) <= (8 if th else 6)], simple=True))

def cases(tier):
    th = tier == "thorough"; s = small(tier); out = []
    def add(kind, cs, **kw): out.extend(dict(c, kind=kind, **kw) for c in cs)
    add("pr", s["one"] + s["all2"] + s["fam"], solvers=["gurobi", "cplex"])
    add("cert", s["one"] + s["all2"] + s["fam"])
    add("exact", s["one"] + s["all2"] + s["ec2"] + s["fam"] + (s["mc3"] + s["h3"] if th else []), solver="gurobi")
    add("exact", s["few"] + s["fam"] + (s["all2"] if th else []), solver="cplex")
    add("labels", s["few"] + s["fam"] + (s["all2"] + s["ec2"] if th else []), solver="gurobi")
    add("qs", s["few"] + s["fam"] + (s["one"] + s["all2"] if th else []))
    for n, kinds, mt in ((1, "dh", 0), (2, "d", 3)) + (((2, "dh", 3),) if th else ()):
        for i, a in enumerate(M.rew_structures(n, kinds, 2, mt)):
            for j, R in enumerate(M.rewards_for(a, False)):
                m = sum(map(len, a)); c = dict(a=a, R=R, t="dtmc" if m == n else "mdp", pres=pres_for(n)[(i + j) % len(pres_for(n))])
                out.append(dict(c, kind="rew", k="sys", solver=("gurobi", "cplex")[(i + j) % 2])); out.append(dict(c, kind="rewmin", solver=("gurobi", "cplex")[(i + j) % 2]))
    for v in range(len(c21.VARS)):
        if c21.VARS[v][0] == "lp": continue
        for first in range(len(c21.OPS)): out.append(dict(kind="ops", vars=v, first=first, depth=3 if th else 2, dir=("min", "max")[(v + first) % 2]))
    out += [dict(kind="ind", n=n, mask=m) for n in (1, 2, 3) for m in range(2 ** n)]
    out += [dict(kind="pairs", i=i, k=k, step=1) for i in range(len(c21.CONS)) for k in range(3 if th else 1)]
    out += [dict(kind="status", spec=s, pres=M.std(len(s["a"])), mode=m, st=st, vals=v) for s in M.rf_enum(1, "h", 1) + [M.chain(3), M.wide(3), M.ring(3)] for m in ("min", "max") for st in range(1, 14) for v in (0, 1)]
    return out

def bounds(tier):
    return "reachability forms with one and two transient states (<=3 actions, with end components all with <=4 actions)%s and structured families: probabilities, certificates, exact minimisation in both modes (gurobi: also max with end components), label minimisation and QSHeur (one state: Dirac and half rows, two states: Dirac rows%s), rewards; GurobiMILP under all sequences of %d building operations after %d variable set-ups; all pairs out of 45 constraints on two bounded variables; indicator and coefficient changes on small problems; every status with which gurobi can end a call, at every step of MILPExact and QSHeur on small forms" % (*((", 3-state DTMCs and MDPs", "; two states with <=3 actions") if tier == "thorough" else ("", "")), 3 if tier == "thorough" else 2, sum(v[0] == "milp" for v in c21.VARS))

def status(case, ctx):
    """every way in which a call of gurobi can end, with and without a point found so far, at every call of an operation"""
    import fakes.gurobi as G
    from switss.problem import MILPExact, QSHeur
    from switss.solver import GurobiMILP
    spec, mode, st, vals = case["spec"], case["mode"], case["st"], case["vals"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); rf = b.rf(); thr = float(exact(spec, mode)[0]) / 2
    known = {G.GRB.LOADED: "notsolved", G.GRB.INFEASIBLE: "infeasible", G.GRB.UNBOUNDED: "unbounded"}
    def ok(s): return s == known[st] if st in known else s not in ("optimal", "success", "infeasible")
    ctx.state(str(spec["a"]), mode, st, vals); ctx.outcome("status", st)
    if st == G.GRB.OPTIMAL: return
    try:
        m = GurobiMILP(objective=mode); x = m.add_variables_w_bounds([("real", 0, 3), ("binary", 0, 1)]); m.set_objective_function([(x[0], 1)])
        G.Model.calls, G.Model.force = 0, (1, st, vals); r = m.solve("gurobi"); ctx.op(); ctx.trace()
        if not ok(r.status) or r.result_vector is not None or r.value is not None: return ctx.fail("gurobi ends with status %d, solve reports %s %s %s" % (st, r.status, r.value, r.result_vector))
        r = m.solve("gurobi")
        if r.status != "optimal": return ctx.fail("status %s after another call ended with status %d" % (r.status, st))
        for meth in (MILPExact(solver="gurobi"), QSHeur(iterations=1, solver="gurobi"), QSHeur(iterations=3, solver="gurobi")):
            G.Model.calls, G.Model.force = 0, None; good = list(meth.solveiter(rf, thr, mode)); total = G.Model.calls
            if [r.status for r in good] != ["success"] * len(good) or total < len(good): return ctx.fail("%s: %s" % (meth, [r.status for r in good]))
            for c in range(total - len(good) + 1, total + 1):           # the calls of the steps themselves
                G.Model.calls, G.Model.force = 0, (c, st, vals); rs = list(meth.solveiter(rf, thr, mode)); ctx.op(G.Model.calls); ctx.trace(); j = c - (total - len(good)) - 1
                what = "%s, %s mode, call %d of gurobi ends with status %d: results %s" % (meth, mode, c, st, [r.status for r in rs])
                if len(rs) != j + 1 or [r.status for r in rs[:j]] != ["success"] * j or not ok(rs[j].status): return ctx.fail(what)
                if rs[j].subsystem is not None or rs[j].farkas_cert is not None: return ctx.fail(what + " with a witness")
    finally: G.Model.force = None

def check(case, ctx):
    k = case["kind"]
    if k == "pr": return c04.check(case, ctx)
    if k == "cert": return c07.check(case, ctx, solvers=("gurobi", "cplex"))
    if k == "exact": return c08.check(case, ctx, solver=case["solver"], with_ecs=case["solver"] == "gurobi")
    if k == "labels": return c09.check(case, ctx, solver=case["solver"], with_ecs=case["solver"] == "gurobi")
    if k == "qs": return c10.check(case, ctx, solvers=("gurobi", "cplex"))
    if k == "rew": return c12.check(case, ctx)
    if k == "rewmin": return c13.check(case, ctx, solver=case["solver"])
    from switss.solver import GurobiMILP
    if k == "pairs": return c21.pairs(case, ctx, lambda dr: GurobiMILP(objective=dr), ("gurobi",))
    if k == "status": return status(case, ctx)
    if k == "ops":
        cls, setup = c21.VARS[case["vars"]]
        for rest in itertools.product(range(len(c21.OPS)), repeat=case["depth"] - 1):
            for box in (0, 1):
                seq = setup + (c21.BOX if box else []) + [c21.OPS[i] for i in [case["first"]] + list(rest)]
                r = c21.Run(cls, case["dir"], model=GurobiMILP(objective=case["dir"])); ctx.trace()
                for o in seq + [["solve"]]:
                    try: e = r.solve("gurobi") if o == ["solve"] else r.op(o); ctx.op()
                    except Exception as x: e = "%s: %s" % (type(x).__name__, x)
                    if e: return ctx.fail("GurobiMILP, after %s: %s" % (seq, e))
                ctx.outcome("ops", r.kind); ctx.state(case["vars"], case["dir"], str(list(r.cons.values())), str(r.obj), len(r.vs))
        return
    # indicator constraints: maximise the sum of n variables in [0, 5] with an indicator each, where the indicators in mask must be zero
    n, mask = case["n"], case["mask"]; ctx.state("ind", n, mask)
    m = GurobiMILP(objective="max"); xs = m.add_variables_w_bounds([("real", 0, 5)] * n); bs = m.add_variables_w_bounds([("binary", 0, 1)] * n)
    xs, bs = ([xs], [bs]) if n == 1 else (xs, bs); ids = []
    for i in range(n): ids.append(m.add_indicator_constraint(bs[i], xs[i]))
    for i in range(n):
        if mask >> i & 1: ids.append(m.add_constraint([(bs[i], 1)], "=", 0))
    m.set_objective_function([(x, 1) for x in xs]); ctx.op(); ctx.trace()
    def value(what, want):
        r = m.solve("gurobi"); ctx.op()
        if r.status != "optimal" or not close(r.value, want, 1e-6): ctx.fail("indicator problem with %d variables, zero mask %s, %s: %s %s, expected %s" % (n, bin(mask), what, r.status, r.value, want)); return False
        return True
    free = n - bin(mask).count("1"); ctx.outcome("ind", free)
    if not value("all", 5 * free): return
    if len(set(ids)) != len(ids): return ctx.fail("constraint indices are not distinct: %s" % ids)
    m.remove_constraint(ids[0])
    if not value("first indicator constraint removed", 5 * (free + (mask & 1))): return
    c = m.add_constraint([(xs[0], 1)], "<=", 2)
    if not value("x0 <= 2", 5 * (free + (mask & 1)) - 3): return
    m.add_to_constraint(c, 2, xs[0])
    if not value("2 x0 <= 2", 5 * (free + (mask & 1)) - 4): return
