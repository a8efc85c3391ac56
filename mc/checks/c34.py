"""C34: certification.find_interior_point on all small systems of inequalities."""
from common import *
import checks.c21 as c21

TECHNIQUE = "exhaustive enumeration of all small systems of inequalities with the real function, answers compared with exact Fourier-Motzkin elimination over the rationals"
ASSUMPTIONS = ["the flags are not judged where the best slack is exactly 0 (the solver's rounding decides), the point is",
               "where the slack is unbounded the function promises no point: a point that is flagged as optimal or strict must still satisfy the inequalities"]

def rows(vals, n): return list(itertools.product(vals, repeat=n))
RHS = ("-1", "0", "1", "3/2")

def cases(tier):
    th = tier == "thorough"; out = []
    R1 = [(a, r) for a in rows((-2, -1, 0, 1), 1) for r in RHS]
    for k in (1, 2, 3): out += [dict(rows=[list(x) for x in c], n=1) for c in itertools.combinations(R1, k)]
    R2 = [(a, r) for a in rows((-1, 0, 1, 2), 2) for r in RHS[1:]] ; R2 += [(a, "-1") for a in rows((-1, 0, 1), 2)]
    out += [dict(rows=[list(x) for x in c], n=2) for c in itertools.combinations(R2, 2)]
    R3 = [(a, r) for a in rows((-1, 0, 1), 2) for r in ("-1", "1")]
    out += [dict(rows=[list(x) for x in c], n=2) for i, c in enumerate(itertools.combinations(R3, 3)) if th or i % 2 == 0]
    out += [dict(rows=[[[1 if i == j else 0 for j in range(3)], "1"] for i in range(3)] + [[list(a), r]], n=3) for a in rows((-1, 0, 1), 3) for r in ("-1", "0", "1/2")]
    out += [dict(n=m, wide=1, p=p) for m in (12, 44) for p in range(m)]
    for i, c in enumerate(out): c["k"] = i
    return out

def bounds(tier):
    th = tier == "thorough"
    return "1 variable: 1-3 rows over coefficients -2..1 and right-hand sides -1, 0, 1, 3/2; 2 variables: all pairs of rows over coefficients -1..2, %s triples over -1..1; 3 variables: upper bounds and one more row; 12 and 44 variables with two bounds each, each of them in turn with a negative or the least upper bound or fixed to zero; with and without nonnegativity, all sets of variables fixed to zero (in turn), cbc and glpk, dense and sparse matrices" % ("all" if th else "half of the")

def wide(case, ctx):
    """independent bounds for many variables: -2 <= x_i <= 1 (x_p <= -1 or 1/2)"""
    from switss.certification import find_interior_point
    from scipy.sparse import dok_matrix, csr_matrix, coo_matrix
    n, p, k = case["n"], case["p"], case["k"]; A = np.vstack([np.eye(n), -np.eye(n)])
    for rp in (-1, .5):
        for xg in (False, True):
            for zero in ([], [p], [i for i in range(n) if i != p]):
                r = np.ones(n); r[p] = rp; bb = np.append(r, 2 * np.ones(n))
                best = max(max(-2, -r[i]) if i in zero else max((-2 - r[i]) / 2, -r[i] / 2) if xg else (-2 - r[i]) / 2 for i in range(n))
                if xg and zero: best = max(best, 0)               # x >= -slack also for the variables fixed to zero
                x, opt, strict = find_interior_point([dok_matrix, csr_matrix, coo_matrix][k % 3](A), bb.copy(), xgeq0=xg, zero_vars=list(zero), solver="glpk" if k % 4 == 3 else "cbc"); ctx.op(); ctx.trace(); ctx.state(n, p, rp, xg, str(zero))
                what = "%d variables between -2 and 1, variable %d at most %s, xgeq0=%s, %d zero variables: optimal=%s, strict=%s, " % (n, p, rp, xg, len(zero), opt, strict)
                x = np.asarray(x, dtype=float); ctx.outcome(n, best > 0, bool(opt), bool(strict))
                if x.shape != (n,): return ctx.fail(what + "the point has %s entries" % (x.shape,))
                if abs(x[zero]).max(initial=0) > 1e-5: return ctx.fail(what + "a variable is not zero")
                sl = max((A @ x - bb).max(), (-x).max() if xg else -9)
                if abs(sl - best) > 1e-5: return ctx.fail(what + "the slack of the point is %s, the least one %s" % (sl, best), point=x.tolist())
                if best and (bool(opt) != (best < 0) or bool(strict) != (best < 0)): return ctx.fail(what + "the least slack is %s" % best)

def check(case, ctx):
    if case.get("wide"): return wide(case, ctx)
    from switss.certification import find_interior_point
    from scipy.sparse import dok_matrix, csr_matrix, coo_matrix
    n, k = case["n"], case["k"]; R = [(tuple(a), F(r)) for a, r in case["rows"]]
    A = np.array([[float(x) for x in a] for a, _ in R]); bb = np.array([float(r) for _, r in R]); Z = [list(c) for j in range(n + 1) for c in itertools.combinations(range(n), j)]
    for xg in (False, True):
        for zero in [[], Z[k % len(Z)]] if Z[k % len(Z)] else [[]]:
            cons = [(list(a) + [-1], "<=", r) for a, r in R] + ([([1 if i == j else 0 for j in range(n)] + [1], ">=", 0) for i in range(n)] if xg else []) + [([1 if i == j else 0 for j in range(n)] + [0], "=", 0) for i in zero]
            st, best = c21.optimum([("real", None, None)] * (n + 1), cons, [0] * n + [1], "min")
            solver = "glpk" if k % 4 == 3 else "cbc"; fmt = [dok_matrix, csr_matrix, coo_matrix][k % 3]; mat = fmt(A); b2 = bb.copy(); z2 = list(zero)
            x, opt, strict = find_interior_point(mat, b2, xgeq0=xg, zero_vars=z2, solver=solver); ctx.op(); ctx.trace(); ctx.state(str(case["rows"]), xg, str(zero))
            what = "rows %s, xgeq0=%s, zero variables %s, %s: point %s, optimal=%s, strict=%s: " % (case["rows"], xg, zero, solver, x, opt, strict)
            if (mat.toarray() != A).any() or (b2 != bb).any() or z2 != zero: return ctx.fail(what + "an argument is modified")
            ctx.outcome(st, None if best is None else (best > 0) - (best < 0), bool(opt), bool(strict))
            x = np.asarray(x, dtype=float)
            if x.shape != (n,): return ctx.fail(what + "the point has %s entries" % (x.shape,))
            if opt or (strict and st == "optimal"):
                if (A.dot(x) > bb + 1e-5).any() or xg and (x < -1e-5).any() or any(abs(x[i]) > 1e-5 for i in zero): return ctx.fail(what + "the point is not in the region")
            if st != "optimal": 
                if opt and st == "infeasible": return ctx.fail(what + "there is no point")
                continue
            if abs(best) < F(1, 10 ** 6): continue
            if bool(opt) != (best < 0) or bool(strict) != (best < 0): return ctx.fail(what + "the least slack is %s" % float(best))
            if best < 0 and ((A.dot(x) > bb + float(best) + 1e-5).any() or xg and (x < -float(best) - 1e-5).any()): return ctx.fail(what + "the slack of the point is larger than the least one, %s" % float(best))
