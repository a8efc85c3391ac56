"""C10: QSHeur iterates for all initializers, updaters and numbers of iterations."""
from common import *
import checks.c06 as c06

ASSUMPTIONS = ["thresholds keep a distance of 1e-4 (models with small probabilities: 1e-6) from every value that a subsystem attains",
               "thresholds below 0.01 are not given to glpk, whose presolver treats right hand sides below 0.001 as zero; models with small probabilities only to cbc"]
INITS = ("AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer")
UPDS = ("InverseResultUpdater", "InverseResultFixedZerosUpdater")

def cases(tier):
    th = tier == "thorough"
    out = rf_cases(M.rf_enum(1, "dhtn"), simple=True) + rf_cases(M.rf_enum(2, "dh", 2, 0 if th else 3)) + rf_cases(M.rf_enum(2, "d"))
    out += rf_cases(M.rf_dtmcs(3, "dh" if th else "h")) + rf_cases(M.FAINT(), presall=True) + rf_cases([s for s in M.families(tier) if len(s["a"]) <= (12 if th else 9)] + M.large(2) + (M.large(9) if th else M.large(9)[:1]), simple=not th)
    out += rf_cases(M.rf_enum(3, "dh", 2, 4) if th else M.rf_enum(3, "d", 2, 4))
    return out

def bounds(tier):
    return ("all reachability forms with <=2 transient states and <=4 actions, 3-state DTMCs, 3-state MDPs with <=4 actions" if tier == "thorough" else "all reachability forms with <=2 transient states and <=3 actions (Dirac: 4), 3-state DTMCs with uniform rows, 3-state Dirac MDPs with <=4 actions") + ", structured families (up to 55 states), models with probabilities of 5e-4 to 1e-5; all 4 initializers x 2 updaters; 1, 2, 3 and 5 iterations in turn; cbc and glpk in turn; thresholds in the intervals between values of subsystems (<=3 per form)"

def check(case, ctx, solvers=("cbc", "cbc", "glpk")):
    from switss import problem as PB
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); ctx.state(str(spec["a"]), str(case["pres"]))
    rf = b.rf(); inv = {b.S[s]: s for s in range(n)}; ecs = c06.proper_ec_states(spec); k = 0
    rows = [r for r in b.rows if r[0] < n]
    for mode in ("min", "max"):
        e = exact(spec, mode)[0]; small = n <= 5
        if small:
            vals = ref.subset_values(spec, mode); thrs = [t for t in ref.thresholds(vals.values(), 1) if min(abs(v - t) for v in vals.values()) >= F(spec.get("eps", "1/10000"))]
            if len(thrs) > 3: thrs = [thrs[0], thrs[-2], thrs[-1]]
        else: thrs = [e * F(1, 4), e * F(9, 10)] + ([(e + 1) / 2] if e < F(99, 100) else [])
        for thr in thrs:
            feas = thr <= e
            best = min((len(s) for s, v in vals.items() if v >= thr), default=None) if small else None
            for init in INITS:
                for upd in UPDS:
                    k += 1; its = (1, 2, 3, 5)[k % 4]; solver = solvers[k % len(solvers)]
                    if solver == "glpk" and (thr < F(1, 100) or "eps" in spec): solver = "cbc"
                    h = PB.QSHeur(iterations=its, initializertype=getattr(PB, init), updatertype=getattr(PB, upd), solver=solver)
                    rs = list(h.solveiter(rf, float(thr), mode)); ctx.op(len(rs)); ctx.trace()
                    what = "%s/%s/%d iterations/%s, %s mode, threshold %s: " % (init, upd, its, solver, mode, float(thr))
                    ctx.outcome(mode, feas, len(rs), init)
                    if not feas:
                        if len(rs) != 1 or rs[0].status == "success" or rs[0].subsystem is not None: return ctx.fail(what + "results %s although the threshold cannot be reached" % [r.status for r in rs])
                        if rs[0].status != "infeasible": ctx.note("unsatisfiable reported as " + rs[0].status)
                        continue
                    if not 1 <= len(rs) <= its: return ctx.fail(what + "%d results" % len(rs))
                    for j, r in enumerate(rs):
                        if r.status != "success": return ctx.fail(what + "result %d is %s" % (j, r.status))
                        S = {inv[i] for i in range(n) if r.subsystem.subsystem_mask[i]}
                        rr = ref.restrict(spec, S) if 0 in S else None
                        v = F(0) if rr is None else (rr.prmin() if mode == "min" else rr.prmax())[0]
                        if v < thr: return ctx.fail(what + "subsystem %s of result %d only has value %s" % (sorted(S), j, float(v)))
                        c = np.asarray(r.farkas_cert, dtype=float)
                        lo, hi = int((c > 1e-9).sum()), int((c > 0).sum())       # entries up to 1e-9 are rounding of the LP solver
                        if len(c) != (n if mode == "min" else len(rows)): return ctx.fail(what + "certificate dimension")
                        if not lo <= r.value <= hi: return ctx.fail(what + "value %s, the certificate has %d positive entries" % (r.value, hi))
                        if best is not None and len(S) < best: return ctx.fail(what + "fewer states (%d) than the minimum (%d)" % (len(S), best))
