"""C05: Farkas systems and vectors derived from them."""
from common import *

ASSUMPTIONS = ["two systems with the same set of (normalised) inequalities are equal; otherwise they are compared on a grid of vectors",
               "tolerance %g for LP results" % TOL]

def cases(tier):
    out = rf_cases(M.rf_enum(1, "dhtn"), presall=True) + rf_cases(M.rf_enum(2, "dh"))
    out += rf_cases(M.rf_enum(2, "dh", 2, 3), presall=True) if tier == "thorough" else []
    out += rf_cases(M.rf_dtmcs(3, "dh")) + rf_cases(M.rf_enum(3, "dh", 2, 4) if tier == "thorough" else M.rf_enum(3, "d", 2, 5))
    out += rf_cases(M.families(tier) + M.large(2, 9), simple=True)
    out += rf_cases(M.large(45) if tier == "thorough" else M.large(45)[2:], simple=True)
    if tier == "thorough": out += rf_cases(M.rf_enum(2, "dht", 2, 4)) + rf_cases(M.rf_enum(2, "dhn"))
    return out

def bounds(tier):
    return "all reachability forms with <=2 transient states and <=2 actions over Dirac/half rows, 3-state DTMCs%s, structured families (up to 271 states); thresholds 0, 1/4, 0.7, 1 in changing order; exact comparison of the systems, LP results of max_z/max_y vectors with cbc" % (", 3-state MDPs with <=4 actions, thirds and 0.1-0.2-0.7 rows" if tier == "thorough" else " and 3-state MDPs with <=5 Dirac actions")

def dense(m): return np.asarray(m.todense()) if hasattr(m, "todense") else np.asarray(m)

def norm_rows(A, b):
    out = set()
    for r, c in zip(A, b):
        k = max(abs(x) for x in r)
        if k == 0: out.add(("zero", float(c) >= 0)) if float(c) < 0 else None; continue
        out.add(tuple(round(float(x) / k, 9) + 0.0 for x in r) + (round(float(c) / k, 9) + 0.0,))
    return out

def same_polytope(A, b, A2, b2):
    if len(b) != len(A): return False
    if norm_rows(A, b) == norm_rows(A2, b2): return True
    d = A.shape[1] if len(A) else 0
    if d == 0 or d > 5: return False
    for x in itertools.product((-1, -.5, -.01, 0, .01, 1 / 3, .5, .7, .99, 1, 1.01, 2) if d < 4 else (-.5, 0, .25, .5, 1, 2), repeat=d):
        s1, s2 = (b - A @ np.array(x)).min(), (b2 - A2 @ np.array(x)).min()
        if (s1 > 1e-9) != (s2 > 1e-9) and abs(s1) > 1e-9 and abs(s2) > 1e-9: return False
    return len(A) > 0

def check(case, ctx):
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); ctx.state(str(spec["a"]), str(case["pres"]))
    rf = b.rf(); C = b.C - 2
    A, bb = ref.farkas(spec)
    rows = [r for r in b.rows if r[0] < n]
    inv = {b.S[s]: s for s in range(n)}
    Ad = np.array([[float(A[r][inv[c]]) for c in range(n)] for r in rows]); bd = np.array([float(bb[r]) for r in rows])
    # documented matrices
    if not np.allclose(dense(rf.A), Ad, atol=1e-12): return ctx.fail("A differs from its definition", got=dense(rf.A).tolist(), expected=Ad.tolist())
    P = np.array([[float(ref.dist(spec["a"][s][i]).get(inv[c], 0)) for c in range(n)] for s, i in rows])
    if not np.allclose(dense(rf.P), P, atol=0): return ctx.fail("P differs from its definition")
    if not np.allclose(dense(rf.to_target).ravel(), bd, atol=0): return ctx.fail("to_target differs")
    if {(int(s), int(a)): int(k) for (s, a), k in rf.index_by_state_action.items()} != {b.A[r]: k for k, r in enumerate(rows)}: return ctx.fail("index_by_state_action differs")
    delta = np.array([1.0 if c == b.S[0] else 0.0 for c in range(n)])
    for thr in (0.25, 0, 1, 0.7, 0.25):
        exz = (np.vstack([Ad, -delta]), np.append(bd, -thr)); exy = (np.vstack([Ad.T, -bd]), np.append(delta, -thr))
        for nm, (Mx, rhs), (EA, Eb) in (("fark_z_constraints", rf.fark_z_constraints(thr), exz), ("fark_y_constraints", rf.fark_y_constraints(thr), exy),
                                        ("fark_constraints(min)", rf.fark_constraints(thr, "min"), exz), ("fark_constraints(max)", rf.fark_constraints(thr, "max"), exy)):
            ctx.op()
            Md = dense(Mx); r = np.asarray(rhs, dtype=float).ravel()
            if Md.shape[1] != EA.shape[1] or len(r) != Md.shape[0]: return ctx.fail("%s has shape %s" % (nm, Md.shape))
            if not same_polytope(Md, r, EA, Eb): return ctx.fail("%s(%s) does not describe the documented polytope" % (nm, thr), got=[Md.tolist(), r.tolist()], expected=[EA.tolist(), Eb.tolist()])
    ctx.trace()
    mn, mx = exact(spec, "min"), exact(spec, "max")
    z = rf.max_z_state(); ctx.op(5)
    if not all(close(x, mn[s]) for s, x in enumerate(b.by_state(z))): return ctx.fail("max_z_state is not Pr^min")
    za = rf.max_z_state_action(); zc = np.array([float(mn[inv[c]]) for c in range(n)])
    if len(za) != C or not np.allclose(za, P @ zc + bd, atol=TOL): return ctx.fail("max_z_state_action is not the one-step image", got=list(map(float, za)), expected=(P @ zc + bd).tolist())
    zn = np.array(b.by_state(z), dtype=float); zl = np.array([zn[inv[c]] for c in range(n)])
    if not np.allclose(za, P @ zl + bd, rtol=0, atol=1e-8): return ctx.fail("max_z_state_action is not the one-step image of max_z_state", got=list(map(float, za)), expected=(P @ zl + bd).tolist())
    y = np.asarray(rf.max_y_state_action(), dtype=float)
    if len(y) != C or (y < -TOL).any(): return ctx.fail("max_y_state_action is not nonnegative", got=y.tolist())
    if (y @ Ad > delta + 10 * TOL).any(): return ctx.fail("max_y_state_action violates y A <= delta_init", got=y.tolist())
    if not close(y @ bd, mx[0], 10 * TOL): return ctx.fail("b y = %r but Pr^max = %s" % (float(y @ bd), mx[0]))
    ys = np.asarray(rf.max_y_state(), dtype=float); ysum = np.zeros(n)
    for k, r in enumerate(rows): ysum[b.S[r[0]]] += y[k]
    if len(ys) != n or not np.allclose(ys, ysum, rtol=1e-8, atol=1e-8): return ctx.fail("max_y_state is not the sum of max_y_state_action over the actions", got=ys.tolist(), expected=ysum.tolist())
    ctx.outcome(mn[0], mx[0], C)
