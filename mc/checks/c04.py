"""C04: pr_min / pr_max against exact probabilities."""
from common import *

ASSUMPTIONS = ["tolerance %g for the LP solvers" % TOL, "only cbc and glpk are installed; gurobi/cplex are C29"]

def cases(tier):
    out = rf_cases(M.rf_enum(1, "dhtn"), presall=True) + rf_cases(M.rf_enum(2, "dh"))
    for c in out: c["solvers"] = ["cbc", "glpk"]
    big = rf_cases(M.rf_enum(3, "dh", 2, 5 if tier == "thorough" else 4)) + rf_cases(M.rf_dtmcs(3, "dn"))
    if tier == "thorough": big += rf_cases(M.rf_enum(2, "dht", 2, 4)) + rf_cases(M.rf_enum(2, "dhn")) + rf_cases(M.rf_dtmcs(4, "dh"))
    for i, c in enumerate(big): c["solvers"] = ["glpk" if i % 4 == 3 else "cbc"]
    fam = rf_cases(M.families(tier), presall=tier == "thorough", simple=True) + rf_cases(M.large(2, 9), presall=True, simple=True) + rf_cases(M.large(45), simple=True)
    for c in fam: c["solvers"] = ["cbc", "glpk"]
    return out + big + fam

def bounds(tier):
    return ("all reachability forms with 1 transient state (Dirac/half/third/0.1-0.2-0.7 rows) in all covering presentations, with 2 transient states and <=2 "
            "actions each (Dirac/half rows), with 3 transient states and <=%s actions in all, 3-state DTMCs with 0.1-0.2-0.7 rows, and structured families up to %d states"
            % ("5" if tier == "thorough" else "4", 271))

def check(case, ctx):
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); ctx.state(str(spec["a"]), str(case["pres"]))
    rf = b.rf()
    for mode in ("min", "max"):
        ex = exact(spec, mode)
        for solver in case["solvers"]:
            v = (rf.pr_min if mode == "min" else rf.pr_max)(solver=solver); ctx.op(); ctx.trace()
            if len(v) != n: return ctx.fail("result has length %d for %d states" % (len(v), n))
            g = b.by_state(v)
            for s in range(n):
                if not close(g[s], ex[s]): return ctx.fail("Pr^%s of state %d is %.9f, exactly %s (%s)" % (mode, s, g[s], ex[s], solver))
        ctx.outcome(mode, ex[0], len({float(x) for x in ex}), bool(M.ecfree(spec)))
