"""C08: MILPExact against brute force over all subsystems."""
from common import *
import checks.c06 as c06

ASSUMPTIONS = ["thresholds are representatives (midpoints) of every interval between the values that any subsystem attains, plus one above the largest; closer than 1e-4 (models with small probabilities: 1e-6) to such a value nothing is claimed",
               "max mode on forms with proper end components needs gurobi and is not covered"]

def cases(tier):
    th = tier == "thorough"
    out = rf_cases(M.rf_enum(1, "dhtn"), presall=True) + rf_cases(M.rf_enum(2, "dh"))
    out += rf_cases(M.rf_dtmcs(3, "dh"))
    out += rf_cases([s for s in M.families(tier) if len(s["a"]) <= (9 if th else 6)], simple=True)
    out += rf_cases(M.rf_enum(3, "h", 2, 4)) + rf_cases(M.FAINT(), presall=True)
    out += [dict(k="branches", lens=l, t=t, at=i % 3) for i, l in enumerate(([1, 2, 3], [4, 2, 3, 1], [12, 9, 8, 5], [20, 14, 9, 3, 2]) + (([30, 25, 10, 5, 5], [60, 40, 21, 7]) if th else ())) for t in ("dtmc", "mdp")]
    if th: out += rf_cases(M.rf_enum(3, "dh", 2, 4)) + rf_cases(M.rf_enum(2, "dhn", 2, 4))
    return out

def bounds(tier):
    return "all reachability forms with <=2 transient states and <=2 actions each, all 3-state MDPs with uniform binary distributions and <=4 actions, all 3-state DTMCs%s, chains of different lengths side by side (up to %d states), models with probabilities of 5e-4 to 1e-5, structured families with <=%d states; for each, a threshold in every interval between values of subsystems; all subsystems enumerated as oracle" % ((", all 3-state MDPs with <=4 actions", 129, 9) if tier == "thorough" else ("", 49, 6))

def branch_spec(lens, t, at):
    """the initial state chooses between chains of the given lengths, each with its own probability of success at the end; mdp: the choices in the chains never help
    (a second action gives up). A chain is worth something only as a whole, so the witnesses are the sets of chains"""
    n = 1 + sum(lens); k = len(lens); tot = F(k * (k + 1), 2); a = [None] * n; val = []; s = 1
    order = [i for i in range(k)] if at == 0 else [i for i in reversed(range(k))]
    if at == 2: order = order[1:] + order[:1]
    starts = {}
    for i in order: starts[i] = s; s += lens[i]
    a[0] = [[[starts[i], str(F(i + 1) / tot)] for i in range(k)]]
    for i in range(k):
        p = F(k + 2 - i, k + 3); val.append((lens[i], F(i + 1) / tot * p))
        for j in range(lens[i]):
            q = starts[i] + j; last = j == lens[i] - 1
            a[q] = [[[n, str(p)], [n + 1, str(1 - p)]] if last else [[q + 1, "1"]]]
            if t == "mdp" and j % 3 == 1: a[q].append([[n, str(p)], [n + 1, str(1 - p)]] if last else [[q + 1, "1/2"], [n + 1, "1/2"]])
    return M.rf_spec(a, t), val

def branches(case, ctx, solver):
    from switss.problem import MILPExact
    spec, val = branch_spec(case["lens"], case["t"], case["at"]); n = len(spec["a"]); b = M.Built(spec, M.simple_presentations(n)[case["at"] % len(M.simple_presentations(n))]); rf = b.rf(); inv = {b.S[s]: s for s in range(n)}
    k = len(val); sets = [(1 + sum(val[i][0] for i in c), sum((val[i][1] for i in c), F(0))) for m in range(1, k + 1) for c in itertools.combinations(range(k), m)]
    ctx.state(str(case["lens"]), case["t"], case["at"]); ctx.trace(len(sets))
    for mode in ("max", "min") if case["t"] == "dtmc" else ("max",):          # min: a missing action counts as failure only together with the others
        for thr in ref.thresholds([v for _, v in sets], 1):
            best = min([c for c, v in sets if v >= thr], default=None)
            if min(abs(v - thr) for _, v in sets) < F(1, 1000) or thr <= 0: continue
            res = MILPExact(solver=solver).solve(rf, float(thr), mode); ctx.op(); ctx.outcome("branches", best)
            what = "%s mode, threshold %s: " % (mode, float(thr))
            if best is None:
                if res.status != "infeasible": return ctx.fail(what + "status %s although no subsystem reaches the threshold" % res.status)
                continue
            if res.status != "success" or abs(res.value - best) > 1e-6: return ctx.fail(what + "%s with value %s, the minimum is %d" % (res.status, res.value, best))
            if sum(res.subsystem.subsystem_mask) != best: return ctx.fail(what + "subsystem has %d states, the minimum is %d" % (sum(res.subsystem.subsystem_mask), best))

def check(case, ctx, solver="cbc", with_ecs=False):
    from switss.problem import MILPExact
    if "lens" in case: return branches(case, ctx, solver)
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); ctx.state(str(spec["a"]), str(case["pres"]))
    rf = b.rf(); A, bb = ref.farkas(spec); rows = [r for r in b.rows if r[0] < n]; ecs = c06.proper_ec_states(spec)
    cond = c06.conditions(spec, b, A, bb, rows, ecs); inv = {b.S[s]: s for s in range(n)}
    for mode in ("min", "max"):
        if mode == "max" and ecs and not with_ecs: continue
        vals = ref.subset_values(spec, mode); top = max(vals.values())
        for thr in ref.thresholds(vals.values(), 1):
            if min(abs(v - thr) for v in vals.values()) < F(spec.get("eps", "1/10000")): continue
            res = MILPExact(solver=solver).solve(rf, float(thr), mode); ctx.op(); ctx.trace()
            ok = [s for s, v in vals.items() if v >= thr]
            what = "%s mode, threshold %s: " % (mode, float(thr))
            if not ok:
                ctx.outcome(mode, "infeasible")
                if res.status != "infeasible": return ctx.fail(what + "status %s although no subsystem reaches the threshold" % res.status)
                if res.subsystem is not None or res.farkas_cert is not None: return ctx.fail(what + "infeasible but with a witness")
                continue
            best = min(map(len, ok)); ctx.outcome(mode, "success", best, n)
            if res.status != "success": return ctx.fail(what + "status %s although a subsystem with %d states exists" % (res.status, best))
            S = {inv[i] for i in range(n) if res.subsystem.subsystem_mask[i]}
            v = vals[frozenset(S)]
            if v < thr: return ctx.fail(what + "subsystem %s only has value %s" % (sorted(S), float(v)))
            if abs(res.value - best) > 1e-6: return ctx.fail(what + "value %s, the minimum is %d" % (res.value, best))
            if len(S) != best: return ctx.fail(what + "subsystem has %d states, value is %s" % (len(S), res.value))
            sub = res.subsystem.subsys
            sv = real_ref(sub.system, {sub.system.N - 2}); x = (sv.prmin() if mode == "min" else sv.prmax())[sub.initial]
            if float(x) < float(thr) - 1e-9: return ctx.fail(what + "the materialised subsystem has value %s" % float(x))
            c = np.asarray(res.farkas_cert, dtype=float); w = np.array(b.by_state(c)) if mode == "min" else c
            if len(c) != (n if mode == "min" else len(rows)): return ctx.fail(what + "certificate has the wrong dimension")
            viol, t, zero = cond(mode, ">=", float(thr), w)
            if max(viol, t, zero) > 1e-5: return ctx.fail(what + "the returned certificate is not valid (violations %g, %g, %g)" % (viol, t, zero), cert=c.tolist())
