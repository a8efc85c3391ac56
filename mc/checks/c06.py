"""C06: check_farkas_certificate against the certificate conditions, on grids of vectors."""
from common import *

ASSUMPTIONS = ["vectors whose violation of some condition lies between tol/3 and 3*tol are not judged; a strict claim met with equality is not judged",
               "certificate conditions after Funke, Jantsch, Baier (FJB19, table 1), with the zero condition on proper end components for min"]
SENSES = ("<=", "<", ">=", ">")

def cases(tier):
    out = rf_cases(M.rf_enum(1, "dhtn"), presall=True) + rf_cases(M.rf_enum(2, "dh", 2, 4 if tier == "thorough" else 3)) + rf_cases(M.rf_enum(2, "d"))
    out += rf_cases(M.rf_dtmcs(3, "dh")) + rf_cases(M.rf_enum(3, "d", 2, 5 if tier == "thorough" else 4)) + rf_cases([s for s in M.families(tier) if len(s["a"]) <= 12] + M.large(2, 9), simple=True)
    return out

def bounds(tier):
    return ("reachability forms with 1 transient state, with 2 transient states and <=%s, 3-state DTMCs, 3-state Dirac MDPs, structured families (up to 55 states); both modes, all 4 comparisons, "
            "thresholds at, around and away from the exact value, tolerances 1e-8, 1e-5, 1e-2 and (dyadic models and vectors) 0; vectors: full grid over {-1/2,0,1/4,1/2,1,2} for dimension <=2 (coarser above), "
            "exact certificates, and each of their single-coordinate perturbations by 0.2, 5 and 1000 times the tolerance" % ("4 actions" if tier == "thorough" else "3 actions (Dirac: 4)"))

def conditions(spec, b, A, bb, rows, ecs):
    """worst violation of the certificate conditions (<= 0: satisfied), and whether the threshold row is tight"""
    n = b.n
    Ad = np.array([[float(A[r][s]) for s in range(n)] for r in rows]); bd = np.array([float(bb[r]) for r in rows])
    delta = np.zeros(n); delta[0] = 1
    def f(mode, sense, thr, v):
        """v in spec coordinates (states or rows)"""
        if (mode, sense[0]) in (("min", ">"), ("max", "<")):
            res = Ad @ v - bd; gap = thr - v[0]; sgn = 1 if mode == "min" else -1
            viol = max(list(sgn * res) + [-1e9]); t = sgn * gap
            zero = max([abs(v[s]) for s in range(n) if s in ecs] + [0]) if mode == "min" else 0
            neg = -1e9
        else:
            res = v @ Ad - delta; gap = thr - v @ bd; sgn = 1 if mode == "max" else -1
            viol = max(sgn * res); t = sgn * gap
            zero = max([abs(v[k]) for k, r in enumerate(rows) if r[0] in ecs] + [0]) if mode == "min" else 0
            neg = max(-v)
        return max(viol, neg), t, zero
    return f

def proper_ec_states(spec):
    n = len(spec["a"]); acts = [[frozenset(M.succs(d)) for d in A] for A in spec["a"]] + [[frozenset([n])], [frozenset([n + 1])]]
    comp, proper = ref.mecs(acts)
    return {s for s in range(n) if proper[s]}

def check(case, ctx):
    from switss.certification import check_farkas_certificate
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); ctx.state(str(spec["a"]), str(case["pres"]))
    rf = b.rf(); A, bb = ref.farkas(spec); rows = [r for r in b.rows if r[0] < n]; C = len(rows); ecs = proper_ec_states(spec)
    cond = conditions(spec, b, A, bb, rows, ecs)
    dyadic = lambda x: F(x).denominator in (1, 2, 4, 8, 16)
    dy = all(dyadic(p) for A_ in spec["a"] for d in A_ for _, p in d)       # floats compute exactly here
    Ex = {m: [float(x) for x in exact(spec, m)] for m in ("min", "max")}
    Z = {1: (-.5, 0, .25, .5, 1, 2), 2: (-.5, 0, .25, .5, 1, 2), 3: (0, .5, 1) , 4: (0, .5, 1)}
    ctx.trace()
    # flows of the best policies as exact y vectors
    def flow(mode):
        r = ref.of_spec(spec); v = r.prmin() if mode == "min" else r.prmax()
        pol = {}
        # a policy attaining v from every state and leaving all end components if possible: choose by distance to goal/fail
        okacts = {s: [i for i, d in enumerate(r.acts[s]) if sum((p * (v[t] if t < n else (1 if t == n else 0)) for t, p in d.items()), F(0)) == v[s]] for s in range(n)}
        done = {n, n + 1}; ch = True
        while ch:
            ch = False
            for s in range(n):
                if s in done: continue
                for i in okacts[s]:
                    if any(t in done for t in r.acts[s][i]): pol[s] = i; done.add(s); ch = True; break
        if len(pol) < n: return None
        At = [[F(1 if i == j else 0) - r.acts[j][pol[j]].get(i, F(0)) for j in range(n)] for i in range(n)]
        try: y = ref.solve(At, [F(1)] + [F(0)] * (n - 1))
        except StopIteration: return None
        return np.array([float(y[s]) if pol[s] == i else 0.0 for s, i in rows])
    for mode in ("min", "max"):
        e = Ex[mode][0]
        for sense in SENSES:
            onstates = (mode, sense[0]) in (("min", ">"), ("max", "<"))
            D = n if onstates else C
            vecs = []
            if D in Z: vecs += [np.array(v, dtype=float) for v in itertools.product(Z[D], repeat=D)]
            cert = np.array(Ex[mode]) if onstates else flow(mode)
            tols = (1e-8, 1e-5, 1e-2)[:3 if n <= 20 else 1] + ((0,) if dy else ())
            thrs = sorted({min(1, max(0, x)) for x in (e, e - .125, e + .125, 0, 1)} | ({.3} if D <= 2 else set()))
            if n > 20: thrs = [max(0, e - .125)] if sense[0] == ">" else [min(1, e + .125)]
            for thr in thrs:
                for tol in tols:
                    vs = list(vecs) if tol == 1e-8 else vecs[::7] if tol else vecs[1::2]
                    if not tol and not dyadic(thr): continue
                    if not tol and cert is not None and all(dyadic(x) for x in cert): vs = vs + [cert]
                    if tol and cert is not None:
                        vs.append(cert)
                        for k in range(D):
                            for q in (.2, 5, 1000):
                                for sg in (1, -1):
                                    w = cert.copy(); w[k] += sg * q * tol; vs.append(w)
                        vs.append(cert * .999); vs.append(cert * 1.001); vs.append(-cert); vs.append(cert + 1e-3)
                    for v in vs:
                        viol, t, zero = cond(mode, sense, thr, v)
                        m = max(viol, t)
                        if tol == 0: exp = m <= 0 and zero == 0 and not (len(sense) == 1 and t == 0)
                        elif m <= tol / 3 and zero == 0 and not (len(sense) == 1 and t > -1e-12): exp = True
                        elif m >= 3 * tol or zero >= 3 * tol: exp = False
                        else: ctx.note("not judged"); continue
                        # spec coordinates -> concrete
                        cv = np.zeros(D)
                        if onstates:
                            for s in range(n): cv[b.S[s]] = v[s]
                        else: cv[:] = v
                        keep = cv.copy()
                        got = bool(check_farkas_certificate(rf, mode, sense, thr, cv, tol=tol)) if tol != 1e-8 else bool(check_farkas_certificate(rf, mode, sense, thr, cv))
                        ctx.op()
                        if got != exp or (cv != keep).any():
                            return ctx.fail("certificate for Pr^%s %s %s %s although its worst violation is %g (threshold row %g, end components %g, tol %g)"
                                            % (mode, sense, thr, "accepted" if got else "rejected", viol, t, zero, tol), vector=cv.tolist())
                        if got and tol <= 1e-5:      # soundness
                            true = e <= thr + 50 * tol * max(1, n) if sense[0] == "<" else e >= thr - 50 * tol * max(1, n)
                            if not true: return ctx.fail("accepted a certificate for the false claim Pr^%s %s %s (exact %s)" % (mode, sense, thr, e), vector=cv.tolist())
                        ctx.outcome(mode, sense, exp, bool(ecs))
