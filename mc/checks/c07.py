"""C07: generate_farkas_certificate is complete and sound."""
from common import *
import checks.c06 as c06

ASSUMPTIONS = ["thresholds keep a distance of at least 0.002 (0.02 for more than 3 transient states) from the exact value"]

def cases(tier):
    out = rf_cases(M.rf_enum(1, "dhn"), presall=True) + rf_cases(M.rf_enum(2, "dh"))
    out += rf_cases(M.rf_dtmcs(3, "dh")) + rf_cases([s for s in M.families(tier) if len(s["a"]) <= (40 if tier == "thorough" else 12)] + M.large(*(2, 9, 45)[:3 if tier == "thorough" else 2]), simple=True)
    out += rf_cases(M.rf_enum(3, "dh", 2, 4) if tier == "thorough" else M.rf_enum(3, "d", 2, 4))
    return out

def bounds(tier):
    return "all reachability forms with <=2 transient states and <=2 actions each, 3-state DTMCs, 3-state MDPs with <=4 %sactions, structured families; both modes, all comparisons, thresholds 0.002 (0.02 for larger models) and further from the exact value on both sides; solver cbc, glpk in turn" % ("" if tier == "thorough" else "Dirac ") + "; families up to %d states" % (271 if tier == "thorough" else 55)

def avoiding(spec, ecs):
    """minimal probability of the initial state over the schedulers that never enter a proper end component (None: there is none);
    certificates of min <= exist exactly from this value on, as they must be zero on the end components"""
    n = len(spec["a"]); S = set(range(n)) - ecs
    ok = lambda d: all(t in S or t >= n for t, p in d)
    while True:
        T = {s for s in S if any(ok(d) for d in spec["a"][s])}
        if T == S: break
        S = T
    if 0 not in S: return None
    order = sorted(S); num = {s: i for i, s in enumerate(order)}; num[n] = len(order); num[n + 1] = len(order) + 1
    return float(exact(dict(rf=True, t=spec["t"], L={"init": [0]}, AL={}, a=[[[(num[t], p) for t, p in d] for d in spec["a"][s] if ok(d)] for s in order], R=None), "min")[0])

def check(case, ctx, solvers=("cbc", "cbc", "cbc", "cbc", "glpk")):
    from switss.certification import generate_farkas_certificate, check_farkas_certificate
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); ctx.state(str(spec["a"]), str(case["pres"]))
    rf = b.rf(); A, bb = ref.farkas(spec); rows = [r for r in b.rows if r[0] < n]; ecs = c06.proper_ec_states(spec)
    cond = c06.conditions(spec, b, A, bb, rows, ecs); k = 0
    for mode in ("min", "max"):
        e = float(exact(spec, mode)[0])
        mg = .002 if n <= 3 else .02           # the slack the LP may use is multiplied along long paths
        near = [x for x in (e - mg, e + mg) if 0 <= x <= 1]; far = [x for x in (e / 2, (1 + e) / 2) if abs(x - e) > .05]
        av = avoiding(spec, ecs) if ecs and mode == "min" else None
        for j, sense in enumerate(c06.SENSES):
            avs = [x for x in (av - mg, av + mg) if 0 <= x <= 1 and abs(x - e) > mg / 2] if av is not None and sense[0] == "<" else []
            for thr in near + far[j % 2:][:1] + avs:
                solver = solvers[k % len(solvers)]; k += 1
                v = generate_farkas_certificate(rf, mode, sense, thr, solver=solver); ctx.op(); ctx.trace()
                true = e <= thr if sense[0] == "<" else e >= thr
                what = "Pr^%s %s %s (exact value %s, %s)" % (mode, sense, thr, e, solver)
                if v is None:
                    if true and not (ecs and (mode, sense[0]) == ("min", "<") and (av is None or thr < av + mg / 2)): return ctx.fail("no certificate for the true claim " + what)
                else:
                    if not true: return ctx.fail("certificate for the false claim " + what, vector=list(map(float, v)))
                    onstates = (mode, sense[0]) in (("min", ">"), ("max", "<"))
                    w = np.array(b.by_state(v)) if onstates else np.array(v, dtype=float)
                    if len(v) != (n if onstates else len(rows)): return ctx.fail("certificate has the wrong dimension for " + what)
                    viol, t, zero = cond(mode, sense, thr, w)
                    if max(viol, t) > 1.1e-5 or zero > 0: return ctx.fail("returned vector is no certificate for " + what, vector=list(map(float, v)), violation=[float(viol), float(t), float(zero)])
                    if not check_farkas_certificate(rf, mode, sense, thr, v, tol=1e-5): return ctx.fail("returned vector is rejected by check_farkas_certificate for " + what)
                ctx.outcome(mode, sense, true, v is not None, bool(ecs))
