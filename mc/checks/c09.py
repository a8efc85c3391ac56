"""C09: label based minimisation against brute force over all subsystems."""
from common import *
import checks.c06 as c06

ASSUMPTIONS = ["thresholds as in C08", "goal and fail do not count as carriers of labels", "for the value of QSHeur, certificate entries of up to 1e-9 count as rounding of the LP solver"]

def labelings(n, th):
    """label -> states: overlapping, empty, nested, shared; all pairs of label sets for n = 2"""
    if n <= 2:
        subs = [()] + list(M.nonempty_subsets(range(n)))
        return [dict(A=list(x), B=list(y)) for x, y in itertools.combinations_with_replacement(subs, 2)] + [dict(A=[0]), dict(A=list(range(n)), B=[n - 1], C=[0, n - 1]), dict(A=[0, n], B=[n, n + 1], C=[]), dict(A=[n - 1, n + 1])]
    r = list(range(n))
    return [dict(A=r[::2], B=r[1::2]), dict(A=r[:n // 2 + 1], B=r[n // 2:], C=[0]), dict(A=r, B=r[1:2]), dict(A=r[1:], B=r[2:], C=r[n - 1:]), dict(A=r[1:] + [n], B=[0, n + 1], C=[], D=[n, n + 1])]

def cases(tier):
    th = tier == "thorough"
    out = rf_cases(M.rf_enum(1, "dh"), simple=True) + rf_cases(M.rf_enum(2, "dh", 2, 0 if th else 3)) + rf_cases(M.rf_enum(2, "d"))
    out += rf_cases(M.rf_dtmcs(3, "dh" if th else "h")) + rf_cases(M.FAINT() + [M.wide(3), M.wide(4)], presall=True) + rf_cases([s for s in M.families(tier) if 2 < len(s["a"]) <= (8 if th else 6)], simple=True)
    out += rf_cases(M.rf_enum(3, "dh", 2, 4) if th else M.rf_enum(3, "d", 2, 4))
    # larger ones, where the minimum is taken over all sets of labels
    out += [dict(c, big=1) for c in rf_cases([s for s in M.families(tier) if (8 if th else 6) < len(s["a"]) <= (40 if th else 20)], simple=True)]
    return out

def big_labelings(n):
    r = list(range(n))
    return [dict(A=r[::2] + [n], B=r[1::2] + [n + 1]), dict(A=r[1::3] + [n, n + 1], B=r[2::3] + [n], C=r[::4], D=[n]), dict(A=r[n // 2:] + [n], B=r[:n // 2], C=r[1:n - 1] + [n]), dict(A=[0, n - 1, n], B=[1, n + 1], C=r[2:])]

def bounds(tier):
    return "all reachability forms with <=2 transient states (%s) with all pairs of label sets (overlapping, nested, empty) and labels on goal and fail, structured families, models with up to 4 actions in a state, models with probabilities of 5e-4 to 1e-5 and 3-state DTMCs%s with 5 label assignments each (incl. labels on goal, fail and no state); structured families with 7 to %d states and 4 label assignments each with goal and fail (minimum over all sets of labels); a threshold in every interval between values of subsystems; MILPExact and QSHeur (2 iterations, the four initializers in turn)" % (("<=4 actions", ", 3-state MDPs with <=4 actions", 40) if tier == "thorough" else ("<=3 actions, Dirac <=4", " (uniform rows), 3-state Dirac MDPs with <=4 actions", 20))

def value_of(spec, mode, S):
    rr = ref.restrict(spec, S) if 0 in S else None
    return F(0) if rr is None else (rr.prmin() if mode == "min" else rr.prmax())[0]

def label_values(spec, mode, lab, n):
    """the largest subsystem with the labels of T, for every set T of labels"""
    out = {}
    for k in range(len(lab) + 1):
        for T in itertools.combinations(sorted(lab), k):
            S = frozenset(s for s in range(n) if all(l in T for l in lab if s in lab[l]))
            out[S] = value_of(spec, mode, S)
    return out

def check(case, ctx, solver="cbc", with_ecs=False):
    from switss.problem import MILPExact, QSHeur, AllOnesInitializer, InverseReachabilityInitializer, InverseFrequencyInitializer, InverseCombinedInitializer
    inits = [AllOnesInitializer, InverseReachabilityInitializer, InverseFrequencyInitializer, InverseCombinedInitializer]; turn = 0
    n = len(case["spec"]["a"]); ecs = c06.proper_ec_states(case["spec"]); big = "big" in case
    for lab in big_labelings(n) if big else labelings(n, ctx.tier == "thorough"):
        spec = dict(case["spec"]); spec["L"] = dict(spec["L"], **lab)
        b = M.Built(spec, case["pres"]); rf = b.rf(); inv = {b.S[s]: s for s in range(n)}
        ctx.state(str(spec["a"]), str(case["pres"]), str(lab)); labels = sorted(lab)
        cost = lambda S: sum(1 for l in labels if set(lab[l]) & set(S))
        for mode in ("min", "max"):
            if mode == "max" and ecs and not with_ecs: continue
            vals = label_values(spec, mode, lab, n) if big else ref.subset_values(spec, mode)
            for thr in ref.thresholds(vals.values(), 1):
                if min(abs(v - thr) for v in vals.values()) < F(spec.get("eps", "1/10000")): continue
                ok = [s for s, v in vals.items() if v >= thr]
                value = (lambda S: value_of(spec, mode, S)) if big else lambda S: vals[frozenset(S)]
                what = "labels %s, %s mode, threshold %s: " % (lab, mode, float(thr))
                res = MILPExact(solver=solver).solve(rf, float(thr), mode, labels=labels); ctx.op(); ctx.trace()
                ctx.outcome(mode, len(ok) > 0, None if not ok else min(map(cost, ok)))
                if not ok:
                    if res.status != "infeasible": return ctx.fail(what + "status %s although no subsystem reaches the threshold" % res.status)
                else:
                    best = min(map(cost, ok))
                    if res.status != "success": return ctx.fail(what + "status %s" % res.status)
                    S = {inv[i] for i in range(n) if res.subsystem.subsystem_mask[i]}
                    if value(S) < thr: return ctx.fail(what + "subsystem %s does not reach the threshold" % sorted(S))
                    if abs(res.value - best) > 1e-6: return ctx.fail(what + "value %s, minimal number of labels is %d" % (res.value, best))
                    if cost(S) > round(res.value): return ctx.fail(what + "the subsystem carries %d labels, value is %s" % (cost(S), res.value))
                it = inits[turn % 4]; turn += 1
                hr = list(QSHeur(iterations=2, initializertype=it, solver=solver).solveiter(rf, float(thr), mode, labels=labels)); ctx.op(len(hr))
                if not ok:
                    if [r.status for r in hr] != ["infeasible"]: return ctx.fail(what + "QSHeur yields %s" % [r.status for r in hr])
                    continue
                if not 1 <= len(hr) <= 2: return ctx.fail(what + "QSHeur yields %d results" % len(hr))
                for r in hr:
                    if r.status != "success": return ctx.fail(what + "QSHeur status %s" % r.status)
                    S = {inv[i] for i in range(n) if r.subsystem.subsystem_mask[i]}
                    if value(S) < thr: return ctx.fail(what + "QSHeur subsystem %s does not reach the threshold" % sorted(S))
                    # rounding of the LP solver leaves entries of up to 1e-9 to states of groups with weight zero
                    c = np.asarray(r.farkas_cert, dtype=float) > 1e-9
                    S = {inv[i] for i in range(n) if c[i]} if mode == "min" else {inv[rf.index_by_state_action.inv[i][0]] for i in range(len(c)) if c[i]}
                    if not cost(S) <= r.value <= len(labels): return ctx.fail(what + "QSHeur value %s, labels that occur: %d" % (r.value, cost(S)))
