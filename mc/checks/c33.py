"""C33: the objective functions of the heuristic (initial weights and updates), and the sequence of linear programs it solves."""
from common import *
import checks.c06 as c06

TECHNIQUE = "exhaustive enumeration of bounded models, groupings, result vectors and scripted initializers/updaters on the real code; weights compared with exact values, every iterate with the optimum of the documented linear program of that iteration"
ASSUMPTIONS = ["weights for groups of value zero only have to be large (>= 1e6), and at least as large as all others after an update",
               "expected frequencies of MDPs belong to some optimal solution of the documented LP: which one is the solver's choice, but it must be optimal",
               "optima of the documented linear programs are computed by an independent LP solver (HiGHS) from the exact rows; tolerance 1e-6"]
INITS = ("InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer")

def specs(th):
    return M.rf_enum(1, "dhtn") + M.rf_enum(2, "dh", 2, 0 if th else 3) + M.rf_dtmcs(2, "dht") + M.rf_dtmcs(3, "dh" if th else "h") + (M.rf_enum(3, "dh", 2, 4) if th else M.rf_enum(3, "d", 2, 4)) + [s for s in M.families("quick") if len(s["a"]) <= 6] + M.FAINT() + M.large(2, 9)

def cases(tier):
    th = tier == "thorough"; S = specs(th); out = []
    for c in rf_cases(S): out.append(dict(c, kind="init", k=len(out)))
    out += [dict(kind="update", n=n, first=i) for n in (1, 2, 3) for i in range(len(VALS))] + [dict(kind="update", n=n, first=i) for n in (12, 45) for i in range(len(VALS))]
    for c in rf_cases([s for s in S if "eps" not in s and len(s["a"]) <= 4][::1 if th else 2]): out.append(dict(c, kind="loop", k=len(out)))
    return out
VALS = [0.0, 1e-12, 1e-9, 1e-6, 0.25, 1.0, 3.0]

def bounds(tier):
    return "initial weights: all reachability forms with <=2 transient states (%s), 3-state DTMCs and MDPs with <=4 actions, structured families (also with 13 and 55 states), models with small probabilities; both modes; one group per variable and 4 label groupings (overlapping, empty, all); weights of AllOnes; updates: all result vectors over %s for 1-3 groups, one vector each for 12 and 45 groups, with and without weights and group numbers that are not consecutive; runs of QSHeur with scripted initial objectives, updates and constraints, up to 4 iterations, on %s of the small forms" % ("<=4 actions" if tier == "thorough" else "<=3 actions", VALS, "all" if tier == "thorough" else "half")

def check(case, ctx): return globals()["do_" + case["kind"]](case, ctx)

def groupings(size, off, k):
    """group number -> variables"""
    one = {off + v: {v} for v in range(size)}
    lab = [{off: set(range(size))}, {off: {v for v in range(size) if v % 2 == 0}, off + 1: set(range(size))},
           {off + 3: {v for v in range(size) if v % 2 == 1}, off + 1: {0}}, {off: set(), off + 2: {size - 1}}]
    return [one] + [lab[(k + j) % 4] for j in range(2)]

def do_init(case, ctx):
    from switss import problem as PB
    from switss.utils import InvertibleDict
    spec = case["spec"]; n = len(spec["a"]); b = M.Built(spec, case["pres"]); rf = b.rf(); ctx.state(str(spec["a"]), str(case["pres"]))
    rows = [r for r in b.rows if r[0] < n]; C = len(rows); A, bb = ref.farkas(spec); prmin = exact(spec, "min"); prmax = exact(spec, "max")
    dtmc = all(len(x) == 1 for x in spec["a"]); inv = {b.S[s]: s for s in range(n)}
    Prs = [float(prmin[inv[i]]) for i in range(n)]
    Pra = [float(bb[r] + sum((p * prmin[t] for t, p in ref.dist(spec["a"][r[0]][r[1]]).items() if t < n), F(0))) for r in rows]
    visits = None
    if dtmc:
        order = [(s, 0) for s in range(n)]; x = ref.solve([[A[o][j] for o in order] for j in range(n)], [F(1) if j == 0 else F(0) for j in range(n)])   # y A = delta
        visits = {s: float(x[s]) for s in range(n)}
    E = {}                                            # frequencies that the code uses, recovered from its weights
    for mode in ("min", "max"):
        size = n if mode == "min" else C
        if PB.certificate_size(rf, mode) != size: return ctx.fail("certificate size %s" % PB.certificate_size(rf, mode))
        def run(cls, g, **kw):
            ind = InvertibleDict({k: set(v) for k, v in g.items()}); before = {k: set(v) for k, v in g.items()}
            o = list(cls(reachability_form=rf, mode=mode, indicator_to_group=ind, **kw).initialize()); ctx.op()
            d = dict((int(a), float(w)) for a, w in o)
            if len(o) != len(g) or set(d) != set(g): return None, "weights for groups %s, groups are %s" % ([a for a, _ in o], list(g))
            if {k: set(v) for k, v in ind.items()} != before: return None, "the groups are modified"
            return d, None
        for j, g in enumerate(groupings(size, size, case["k"])):
            what = "%s mode, groups %s: " % (mode, g); ctx.trace()
            for w in (None, {a: 1 + 2 * i for i, a in enumerate(g)}):
                d, e = run(PB.AllOnesInitializer, g, weights=w)
                if e or any(d[a] != (1 if w is None else w[a]) for a in g): return ctx.fail(what + "AllOnesInitializer with weights %s: %s" % (w, e or d))
            P = Prs if mode == "min" else Pra
            d, e = run(PB.InverseReachabilityInitializer, g)
            if e: return ctx.fail(what + "InverseReachabilityInitializer: " + e)
            for a, vs in g.items():
                avg = sum(P[v] for v in vs) / max(1, len(vs))
                if not bad(d[a], avg): continue
                return ctx.fail(what + "InverseReachabilityInitializer gives group %s the weight %s, the average probability is %s" % (a, d[a], avg))
            fr, e = run(PB.InverseFrequencyInitializer, g)
            if e: return ctx.fail(what + "InverseFrequencyInitializer: " + e)
            co, e = run(PB.InverseCombinedInitializer, g)
            if e: return ctx.fail(what + "InverseCombinedInitializer: " + e)
            if j == 0:
                y = {v: 0.0 if fr[size + v] >= 0.9e8 else 1 / fr[size + v] for v in range(size)}; E[mode] = y
                if dtmc:
                    for v in range(size):
                        x = visits[inv[v] if mode == "min" else rows[v][0]]
                        if bad(fr[size + v], x): return ctx.fail(what + "InverseFrequencyInitializer gives variable %d the weight %s, the expected frequency is %s" % (v, fr[size + v], x))
                elif mode == "max":
                    flow = [sum(y[v] * float(A[r][s]) for v, r in enumerate(rows)) for s in range(n)]; got = sum(y[v] * float(bb[r]) for v, r in enumerate(rows))
                    scale = max(1, max(y.values()))
                    if any(f > (1 if s == 0 else 0) + 1e-5 * scale for s, f in enumerate(flow)) or abs(got - float(prmax[0])) > 1e-5 * scale: return ctx.fail(what + "InverseFrequencyInitializer's weights %s do not belong to a frequency vector of maximal reachability %s" % (fr, float(prmax[0])))
                elif sum(y.values()) and y[b.S[0]] == 0: return ctx.fail(what + "InverseFrequencyInitializer: the initial state has frequency 0: %s" % fr)
            for a, vs in g.items():
                x = sum(E[mode][v] for v in vs)
                if bad(fr[a], x): return ctx.fail(what + "InverseFrequencyInitializer gives group %s the weight %s, the sum of frequencies is %s" % (a, fr[a], x))
                x = sum(E[mode][v] * P[v] for v in vs)
                if bad(co[a], x): return ctx.fail(what + "InverseCombinedInitializer gives group %s the weight %s, the sum is %s" % (a, co[a], x))
            ctx.outcome(mode, j == 0, sum(1 for a in g if d[a] > 1e5), sum(1 for a in g if fr[a] > 1e5))
        if mode == "max" and "max" in E and "min" in E and not dtmc:
            for s in range(n):
                x = sum(E["max"][v] for v, r in enumerate(rows) if r[0] == s)
                if abs(x - E["min"][b.S[s]]) > 1e-5 * max(1, x): return ctx.fail("frequency of state %d is %s, its actions have %s" % (s, E["min"][b.S[s]], x))

def bad(o, x):
    """whether o is not the inverse of x (x computed exactly, o from LP results of limited precision)"""
    if not o > 0: return True
    if x < 3e-6: return o < 1e5
    return abs(1 / o - x) > 2e-6 * max(1, x) + 1e-12

def do_update(case, ctx):
    from switss import problem as PB
    from switss.utils import InvertibleDict
    n = case["n"]; rf = M.Built(M.chain(3)).rf()
    for rest in itertools.product(range(len(VALS)), repeat=n - 1) if n <= 3 else [tuple((case["first"] + i * 3 + i // 5) % len(VALS) for i in range(1, n))]:
        vals = [VALS[i] for i in (case["first"],) + rest]
        for off, step in ((3, 1), (5, 2)):
            ids = [off + step * i for i in range(n)]; last = np.full(ids[-1] + 2, 7.5); last[ids] = vals; keep = last.copy(); ctx.state(n, str(vals), off)
            for wt in (None, {a: 2 + i for i, a in enumerate(ids)}):
                ctx.trace()
                for name in ("InverseResultUpdater", "InverseResultFixedZerosUpdater"):
                    ind = InvertibleDict({a: {i} for i, a in enumerate(ids)}); u = getattr(PB, name)(reachability_form=rf, mode=("min", "max")[step % 2], indicator_to_group=ind, weights=wt)
                    o = list(u.update(last)); cs = list(u.constraints(last)); ctx.op(2); d = {int(a): float(w) for a, w in o}; what = "%s, result %s, weights %s: " % (name, dict(zip(ids, vals)), wt)
                    if len(o) != n or set(d) != set(ids): return ctx.fail(what + "objective %s" % o)
                    if not (last == keep).all(): return ctx.fail(what + "the result is modified")
                    for a, x in zip(ids, vals):
                        w = 1 if wt is None else wt[a]
                        if x >= 1e-7 or x > 0 and name == "InverseResultFixedZerosUpdater":
                            if abs(d[a] - w / x) > 1e-9 * w / x: return ctx.fail(what + "group %s has weight %s" % (a, d[a]))
                        elif x > 0 and not 0.9e8 <= d[a] <= w / x * (1 + 1e-9): return ctx.fail(what + "group %s has weight %s" % (a, d[a]))
                        elif x == 0 and name == "InverseResultUpdater":
                            if not d[a] >= 1e6: return ctx.fail(what + "the removed group %s only has weight %s" % (a, d[a]))
                            if wt is None and any(d[c] > d[a] * (1 + 1e-9) for c in ids): return ctx.fail(what + "the removed group %s has less weight than another: %s" % (a, d))
                    zero = set()
                    for c in cs:
                        pairs, sense, rhs = c
                        if len(pairs) != 1 or not pairs[0][1] or sense not in ("=", "==") or rhs != 0: return ctx.fail(what + "constraint %s" % (c,))
                        zero.add(int(pairs[0][0]))
                    want = {a for a, x in zip(ids, vals) if x == 0} if name == "InverseResultFixedZerosUpdater" else set()
                    if zero != want: return ctx.fail(what + "fixes the groups %s to zero, expected %s" % (zero, want))
                    ctx.outcome(name, n, len(want))

WEIGHTS = [(1, 1, 1), (1, 3, 2), (2, 0, 1), (0, 1, 5), (4, 1, 0), (1, 1, 10)]
def do_loop(case, ctx):
    from switss import problem as PB
    spec = case["spec"]; n = len(spec["a"]); k = case["k"]; lab = dict(A=[s for s in range(n) if s % 2 == 0], B=list(range(n)))
    spec = dict(spec, L=dict(spec["L"], **lab)); b = M.Built(spec, case["pres"]); rf = b.rf(); ctx.state(str(spec["a"]), str(case["pres"]))
    rows = [r for r in b.rows if r[0] < n]; A, bb = ref.farkas(spec); ecs = c06.proper_ec_states(spec); inv = {b.S[s]: s for s in range(n)}
    for mode in ("min", "max"):
        e = exact(spec, mode)[0]; size = n if mode == "min" else len(rows)
        for q, thr in enumerate((e * F(1, 3), e * F(9, 10))):
            if thr < F(1, 100): continue
            for labels in (None, ["A", "B"]):
                kk = k + q + (labels is not None); its = 1 + kk % 4; log = []
                class Init(PB.Initializer):
                    def initialize(self):
                        gs = sorted(self.groups); o = [(g, float(WEIGHTS[kk % 6][i % 3])) for i, g in enumerate(gs)]; log.append(("o", o, {g: sorted(self.indicator_to_group[g]) for g in gs})); return o
                class Upd(PB.Updater):
                    def update(self, last):
                        gs = sorted(self.groups); c = sum(1 for x in log if x[0] == "o"); o = [(g, float(WEIGHTS[(kk + c * 2 + 1) % 6][(i + c) % 3])) for i, g in enumerate(gs)]; log.append(("r", np.array(last, dtype=float))); log.append(("o", o)); return o
                    def constraints(self, last):
                        gs = sorted(self.groups); c = sum(1 for x in log if x[0] == "c"); g = gs[(kk + c) % len(gs)]
                        cs = [[], [([(g, 1.0)], "<=", float(last[g]) / 2)], [([(g, 2.0)], ">=", float(last[g]) * 2)], [([(g, 1.0)], "=", 0)]][(kk + c) % 4]; log.append(("c", cs)); return cs
                h = PB.QSHeur(iterations=its, initializertype=Init, updatertype=Upd, solver="cbc")
                rs = list(h.solveiter(rf, float(thr), mode, labels=labels)); ctx.op(len(rs)); ctx.trace()
                what = "%s mode, threshold %s, labels %s, %d iterations: " % (mode, float(thr), labels, its)
                objs = [x for x in log if x[0] == "o"]; res = [x[1] for x in log if x[0] == "r"]; cons = [x[1] for x in log if x[0] == "c"]
                if not objs or len(objs[0]) < 3: return ctx.fail(what + "the initializer is not asked for weights")
                groups = objs[0][2]
                want = [[v] for v in range(size)] if labels is None else [sorted(v for v in range(size) if (inv[v] if mode == "min" else rows[v][0]) in lab[l]) for l in labels]
                if sorted(groups.values()) != sorted(want): return ctx.fail(what + "groups %s, expected %s" % (groups, want))
                if any(g < size for g in groups): return ctx.fail(what + "group variables %s" % list(groups))
                lp = program(A, bb, b, n, rows, mode, thr, groups, ecs, M.ecfree(spec), inv, all(len(x) == 1 for x in spec["a"])); active = []
                for i in range(its):
                    opt = lp(objs[i][1], active)
                    if active and (lp(objs[i][1], active, 1e-5) is None) != (lp(objs[i][1], active, -1e-5) is None): ctx.note("constraints on the boundary of feasibility"); break
                    if i >= len(rs): return ctx.fail(what + "only %d results" % len(rs))
                    r = rs[i]; w = what + "iteration %d, objective %s, constraints %s: " % (i, objs[i][1], active); ctx.outcome(mode, i, opt is None, r.status)
                    if opt is None:
                        if r.status == "success": return ctx.fail(w + "success although the constraints cannot be satisfied")
                        if len(rs) != i + 1: return ctx.fail(w + "goes on after a failure")
                        break
                    if r.status != "success": return ctx.fail(w + "status %s" % r.status)
                    if len(res) <= i or len(cons) <= i: return ctx.fail(w + "the updater is not given the result")
                    x = res[i]; c = np.asarray(r.farkas_cert, dtype=float)
                    if len(c) != size or not np.allclose(c, x[:size], atol=1e-9, rtol=1e-9): return ctx.fail(w + "the updater is given %s, the certificate is %s" % (x, c))
                    got = sum(o * x[g] for g, o in objs[i][1])
                    if abs(got - opt) > 2e-6 * (1 + abs(opt)) * 10: return ctx.fail(w + "the result has value %s, the optimum is %s (%s)" % (got, opt, x))
                    for pairs, sense, rhs in active:
                        v = sum(a * x[j] for j, a in pairs)
                        if not (v <= rhs + 1e-6 if sense == "<=" else v >= rhs - 1e-6 if sense == ">=" else abs(v - rhs) < 1e-6): return ctx.fail(w + "the result violates %s" % ((pairs, sense, rhs),))
                    active += cons[i]
                else:
                    if len(rs) != its: return ctx.fail(what + "%d results" % len(rs))

def program(A, bb, b, n, rows, mode, thr, groups, ecs, ecfree, inv, dtmc):
    """the documented linear program: minimal value of the objective, or None"""
    from scipy.optimize import linprog
    size = n if mode == "min" else len(rows); G = sorted(groups); N = max(G) + 1; M_, R = [], []
    if mode == "min":
        for r in rows: M_.append({b.S[s]: float(A[r][s]) for s in range(n) if A[r][s]}); R.append(float(bb[r]))
        M_.append({b.S[0]: -1.0}); R.append(-float(thr)); ub = [0.0 if inv[v] in ecs else 1.0 for v in range(n)]; big = [1.0] * n
    else:
        for s in range(n): M_.append({v: float(A[r][s]) for v, r in enumerate(rows) if A[r][s]}); R.append(1.0 if s == 0 else 0.0)
        M_.append({v: -float(bb[r]) for v, r in enumerate(rows) if bb[r]}); R.append(-float(thr)); ub = big = None
    def mat(extra):
        L = M_ + extra; X = np.zeros((len(L), N))
        for i, row in enumerate(L):
            for j, x in row.items(): X[i, j] = x
        return X
    if ub is None and ecfree:
        r = linprog([-1.0] * size + [0.0] * (N - size), A_ub=mat([]), b_ub=R, bounds=[(0, None)] * N, method="highs")
        if r.status != 0: return lambda o, active, slack=0: None
        ub = big = list(r.x[:size]) if dtmc else [-r.fun] * size
    ex, er = [], []
    for g in G:
        for v in groups[g]: ex.append({v: 1.0, g: -1.0 if ub is None else -big[v]}); er.append(0.0)
    def run(o, active, slack=1e-9):
        e2, r2, eq, eqr = list(ex), list(er), [], []
        for pairs, sense, rhs in active:
            row = {}
            for j, a in pairs: row[j] = row.get(j, 0) + a
            if sense == "<=": e2.append(row); r2.append(rhs + slack)
            elif sense == ">=": e2.append({j: -a for j, a in row.items()}); r2.append(-rhs + slack)
            else: eq.append(row); eqr.append(rhs)
        c = [0.0] * N
        for g, w in o: c[g] += w
        X = np.zeros((len(eq), N))
        for i, row in enumerate(eq):
            for j, a in row.items(): X[i, j] = a
        bd = [(0, None if ub is None else ub[v]) for v in range(size)] + [(0, (None if ub is None else 1) if j in groups else 0) for j in range(size, N)]
        r = linprog(c, A_ub=mat(e2), b_ub=R + r2, A_eq=X if eq else None, b_eq=eqr if eq else None, bounds=bd, method="highs")
        return r.fun if r.status == 0 else None
    return run
