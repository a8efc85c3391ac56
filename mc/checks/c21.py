"""C21: the LP/MILP layer under every sequence of building operations, against an exact oracle."""
from common import *

ASSUMPTIONS = ["oracle: Fourier-Motzkin elimination over the rationals; integer variables enumerated in [-10,10], which contains an optimal point of every enumerated problem that has one",
               "a problem without optimum may be reported by glpk as undefined instead of infeasible or unbounded, and a mixed-integer problem without optimum as either of infeasible and unbounded (solver limitation); it is never reported optimal",
               "cbc 2.10.3 sometimes follows an unbounded ray and reports an optimum beyond 1e9: taken for an answer of 'unbounded'", "not judged: problems without any constraint (cbc rejects the file), and problems that are unbounded through a variable that occurs in no constraint (cbc 2.10.3 reports an optimum)"]

# ----- oracle ---------------------------------------------------------------------------------------------------------
def fm(rows, n):
    """rows: (coeffs of length n, rhs) meaning c x <= rhs. Eliminates all but the last variable; returns
    None if infeasible, otherwise (lower, upper) of the last variable (None: unbounded)"""
    rows = {norm(r) for r in rows}
    for v in range(n - 1):
        pos, neg, zero = [], [], set()
        for c, r in rows:
            if c[v] > 0: pos.append((c, r))
            elif c[v] < 0: neg.append((c, r))
            else: zero.add((c, r))
        for c, r in pos:
            for d, s in neg:
                a, b = -d[v], c[v]
                zero.add(norm((tuple(a * x + b * y for x, y in zip(c, d)), a * r + b * s)))
        rows = zero
    lo = hi = None
    for c, r in rows:
        k = c[n - 1]
        if k == 0:
            if r < 0: return None
        elif k > 0: hi = r / k if hi is None else min(hi, r / k)
        else: lo = r / k if lo is None else max(lo, r / k)
    if lo is not None and hi is not None and lo > hi: return None
    return lo, hi

def norm(row):
    c, r = row; k = next((abs(x) for x in c if x), None)
    return (tuple(c), r) if k in (None, 1) else (tuple(x / k for x in c), r / k)

def optimum(vs, cons, obj, direction):
    """vs: (domain, lb, ub); cons: (coeffs, sense, rhs); returns ('infeasible'|'unbounded'|'optimal', value)"""
    n = len(vs); rows = []
    def add(c, s, r):
        if s in ("<=", "="): rows.append((tuple(map(F, c)) , F(r)))
        if s in (">=", "="): rows.append((tuple(-F(x) for x in c), -F(r)))
    for i, (d, lb, ub) in enumerate(vs):
        e = [0] * n; e[i] = 1
        if d == "binary": lb, ub = 0, 1
        if lb is not None: add(e, ">=", lb)
        if ub is not None: add(e, "<=", ub)
    for c, s, r in cons: add(list(c) + [0] * (n - len(c)), s, r)
    o = list(map(F, obj)) + [F(0)] * (n - len(obj))
    ints = [i for i in range(n) if vs[i][0] != "real"]
    def lp(rows, fixed):
        free = [i for i in range(n) if i not in fixed]; out = []
        for c, r in rows:
            out.append((tuple(c[i] for i in free) + (F(0),), r - sum(c[i] * fixed[i] for i in fixed)))
        base = sum(o[i] * fixed[i] for i in fixed)
        eq = tuple(-o[i] for i in free) + (F(1),)                    # t = o x
        out += [(eq, base), (tuple(-x for x in eq), -base)]
        return fm(out, len(free) + 1)
    if not ints:
        r = lp(rows, {})
        if r is None: return "infeasible", None
        v = r[0] if direction == "min" else r[1]
        return ("unbounded", None) if v is None else ("optimal", v)
    best = None; rngs = []
    for i in ints: rngs.append((0, 1) if vs[i][0] == "binary" else range(-10, 11))
    for q in itertools.product(*rngs):
        r = lp(rows, dict(zip(ints, map(F, q))))
        if r is None: continue
        v = r[0] if direction == "min" else r[1]
        if v is None: return "unbounded", None
        if best is None or (v < best if direction == "min" else v > best): best = v
    if best is None: return "infeasible", None
    rel = lp(rows, {})                                               # an unbounded relaxation of a feasible rational problem
    if (rel[0] if direction == "min" else rel[1]) is None: return "unbounded", None
    return "optimal", best

# ----- the enumerated operations -----------------------------------------------------------------------------------------
VARS = [("milp", [["add", ["real", "real"]]]), ("milp", [["addb", [["real", 0, 2], ["real", -1, 1]]]]), ("milp", [["add", ["integer"]], ["add", ["real"]]]),
        ("milp", [["addb", [["integer", 0, 3]]], ["add", ["binary"]]]), ("milp", [["add", ["binary", "binary", "binary"]]]), ("milp", [["addb", [["real", None, 2], ["integer", -2, None]]]]),
        ("lp", [["addn", 2]]), ("lp", [["addn", 1], ["addn", 1]]), ("lp", [["addn", 3]]), ("milp", [["addb", [["binary", 0, 1]]], ["addb", [["real", 0, 1]]]]), ("milp", [["addb", [["integer", 0, 1], ["real", 0, 1]]]])]
OPS = [["con", [[0, 1]], "<=", 2], ["con", [[0, 1], [1, 1]], "<=", 3], ["con", [[1, 2], [0, -1]], "<=", 1], ["con", [[0, 2], [1, 1]], ">=", 1], ["con", [[0, 1], [1, -1]], "=", 0],
       ["con", [[1, -1]], ">=", -2], ["con", [[0, 1]], ">=", 4], ["con", [[0, 1], [1, 1]], ">=", -3], ["con", [[1, 1], [1, 1]], "<=", 3], ["rem", 0], ["rem", 1],
       ["obj", [[0, 1]]], ["obj", [[0, 1], [1, 1]]], ["obj", [[1, -2], [0, 1]]], ["obj", []], ["obj", [[0, 1], [0, 1], [1, 1]]], ["solve"], ["var"]]
BOX = [["con", [[0, 1]], "<=", 4], ["con", [[0, 1]], ">=", -4], ["con", [[1, 1]], "<=", 4], ["con", [[1, 1]], ">=", -4]]

def cases(tier):
    th = tier == "thorough"; out = []; k = 0
    D = 3
    for v in range(len(VARS)):
        for first in range(len(OPS)):
            for second in range(len(OPS)):
                k += 1
                if not th and (v + first + second) % 3: continue
                out.append(dict(kind="ops", vars=v, dir=("min", "max")[(k + first + v) % 2], pre=[first, second], depth=D, box=(k // 2 + v) % 2, solver="glpk" if k % 5 == 0 else "cbc", thin=1 if th else 2))
    vals = (-1, 0, 1, 2)
    A = list(itertools.product(vals, repeat=4))
    for i in range(0, len(A), 8): out.append(dict(kind="mat", A=A[i:i + 8], at=i, reps=6 if th else 1))
    out += [dict(kind="mat3", at=i, n=24 if th else 6) for i in range(24)]
    out += [dict(kind="pairs", i=i, k=k, step=1 if th else 3) for i in range(len(CONS)) for k in range(3 if th else 1)]
    return out + [dict(kind="big", n=n, k=k) for n in ((1, 5, 10, 11, 12, 14, 23, 45) + ((40, 101, 120, 250) if th else ())) for k in range(24)]

TERMS = ([[0, 1]], [[1, 1]], [[0, 1], [1, 1]], [[0, 1], [1, -1]], [[0, 2], [1, 1]]); CONS = [["con", t, s, r] for t in TERMS for s in ("<=", "=", ">=") for r in (-1, 0, 3)]
DOMS = ([["real", 0, 5], ["real", -2, 2]], [["integer", 0, 4], ["real", 0, 5]], [["binary", 0, 1], ["integer", -3, 3]]); OBJS = ([[0, 1], [1, 1]], [[0, 1], [1, -2]], [[1, 1]])

def pairs(case, ctx, mk, solvers):
    """every pair of constraints out of CONS on two bounded variables"""
    for j in range(len(CONS)):
        if (j + case["i"]) % case["step"]: continue
        d = DOMS[(case["i"] + j + case["k"]) % 3]; k = case["i"] * 7 + j + case["k"]; dr = ("min", "max")[k % 2]; o = OBJS[k // 2 % 3]; solver = solvers[k // 6 % len(solvers)]
        r = Run("milp", dr, model=mk(dr)); ctx.trace(); seq = [["addb", d], CONS[case["i"]], CONS[j], ["obj", o]]; ctx.state("pairs", str(seq), dr)
        for x in seq + [["solve"]]:
            try: e = r.solve(solver) if x == ["solve"] else r.op(x); ctx.op()
            except Exception as y: e = "%s: %s" % (type(y).__name__, y)
            if e: return ctx.fail("after %s: %s" % (seq, e))
        ctx.outcome("pairs", r.kind)

def big(case, ctx):
    """separable problems with many variables: the optimum and the only optimal vector are known"""
    from switss.solver import MILP, LP
    n, k = case["n"], case["k"]; cls = ("lp", "milp", "mat", "lpmat")[k % 4]; direction = ("min", "max")[k // 4 % 2]; sg = 1 if direction == "min" else -1
    nt = [lambda i: i, np.int64, np.int32][k % 3]; ft = [float, np.float64, lambda x: np.float64(x)][k // 3 % 3]
    dom = ["real" if cls in ("lp", "lpmat") or (i + k) % 3 == 0 else ("integer", "binary")[(i + k) % 2] for i in range(n)]
    lo = [0 if d == "binary" else -((7 * i + k) % 5) - (0.123 if d == "real" else 0) for i, d in enumerate(dom)]; hi = [1 if d == "binary" else l + 1 + (3 * i) % 4 + (0.0012345 if d == "real" else 0) for i, (l, d) in enumerate(zip(lo, dom))]
    w = [((i % 7) + 0.25 + i / 64) * (-1 if (i * i + k) % 3 == 1 else 1) for i in range(n)]
    best = [lo[i] if w[i] * sg > 0 else hi[i] for i in range(n)]; order = sorted(range(n), key=lambda i: (i * 7 + k) % n)
    ctx.trace(); ctx.op(3 * n); ctx.state(n, k); ctx.outcome(cls, direction, n)
    what = "%s of %d variables, pattern %d: " % (direction, n, k)
    if cls in ("mat", "lpmat"):
        rows = [(i, -1, -lo[i]) for i in order] + [(i, 1, hi[i]) for i in reversed(order)]
        A = np.zeros((2 * n, n)); b = np.zeros(2 * n)
        for j, (i, c, r) in enumerate(rows): A[j, i] = c * (1 + j % 3); b[j] = r * (1 + j % 3)
        if k % 2: A, b = -A, -b
        m = MILP.from_coefficients(A, b, np.array(w), dom, sense=("<=", ">=")[k % 2], objective=direction) if cls == "mat" else LP.from_coefficients(A, b, np.array(w), sense=("<=", ">=")[k % 2], objective=direction)
        cons = list(range(2 * n))
    else:
        m = (LP if cls == "lp" else MILP)(objective=direction); ids = []
        if cls == "lp":
            while len(ids) < n:
                r = m.add_variables(min(3, n - len(ids))); ids += [r] if isinstance(r, int) else list(r)
        else:
            for i in range(0, n, 4):
                r = m.add_variables_w_bounds([(dom[j], lo[j] if j % 2 else None, hi[j] if j % 3 else None) for j in range(i, min(n, i + 4))]) if k % 2 else m.add_variables(dom[i:i + 4]); ids += [r] if isinstance(r, int) else list(r)
        if ids != list(range(n)): return ctx.fail(what + "indices of new variables are %s" % ids)
        cons = []; wrong = []
        for j, i in enumerate(order):                   # in between, constraints that exclude the optimum and are removed again
            cons.append(m.add_constraint([(nt(i), ft(2))], ">=", ft(2 * lo[i])))
            if j % 3 == k % 3: wrong.append(m.add_constraint([(nt(i), ft(1))], "=", ft(lo[i] + .5)))
            cons.append(m.add_constraint([(nt(i), ft(.5)), (nt((i + 1) % n), ft(0))], "<=", ft(hi[i] / 2)))
            if j % 4 == 3 and wrong: m.remove_constraint(wrong.pop(0))
        if len(set(cons)) < len(cons): return ctx.fail(what + "a constraint index was given twice")
        for x in wrong: m.remove_constraint(x)
        m.set_objective_function([(nt(i), ft(1)) for i in range(n)]); m.set_objective_function([(nt(i), ft(w[i])) for i in order])
    for rnd in (0, 1):
        r = m.solve("cbc" if (k + rnd) % 3 else "glpk", **({"timeout": 60} if k % 5 == 0 else {}))
        if r.status != "optimal": return ctx.fail(what + "status %s" % r.status)
        x = [float(v) for v in r.result_vector]
        if len(x) != n or any(abs(a - b_) > 1e-4 for a, b_ in zip(x, best)): return ctx.fail(what + "result %s, the only optimal vector is %s" % (x, best))
        v = sum(a * b_ for a, b_ in zip(w, best))
        if abs(float(r.value) - v) > 1e-4 * max(1, abs(v)): return ctx.fail(what + "value %s, the optimum is %s" % (r.value, v))
        if rnd == 0:                # tighten one bound, then solve again with the other solver
            i = (5 * k + n // 2) % n; t = lo[i] + (1 if dom[i] == "integer" else 0 if dom[i] == "binary" else .5)
            m.add_constraint([(i, 3)], "<=", 3 * t); hi[i] = t; best[i] = lo[i] if w[i] * sg > 0 else hi[i]
    # one more variable, which an equation with all the others in it determines
    z = m.add_variables(1 if cls in ("lp", "lpmat") else ["real"]); z = z if isinstance(z, int) else list(z)[0]; u = [1 + (i * 3 + k) % 5 for i in range(n)]
    if z != n: return ctx.fail(what + "the index of a further variable is %s" % z)
    m.add_constraint([(i, u[i]) for i in order] + [(z, -1)], "=", k)
    r = m.solve("cbc" if k % 2 else "glpk"); t = sum(a * b_ for a, b_ in zip(u, best)) - k
    if r.status != "optimal" or abs(float(r.result_vector[n]) - t) > 1e-4 * max(1, abs(t)): return ctx.fail(what + "%s, the sum of all variables is %s instead of %s" % (r.status, r.result_vector[n] if r.status == "optimal" else None, t))

def bounds(tier):
    return "separable problems with up to %d variables (in which the only optimal vector is known, with a dense equation at the end), built in 24 ways each; " % (250 if tier == "thorough" else 45) + "%d variable set-ups (real, integer, binary, with and without bounds, added one by one or together, as MILP and LP), then all sequences of %d building operations out of %d (9 constraints, removals, 5 objectives, intermediate solves, further variables), %s; all 2x2 coefficient matrices over {-1,0,1,2} with rotating right-hand sides, objectives, senses, domains and formats, and systems with 3 variables; %s pairs out of 45 constraints (5 left sides, <=, =, >=, 3 right sides) on two bounded variables; cbc and glpk" % (
        len(VARS), 3, len(OPS), "all, both with and without a bounding box in turn" if tier == "thorough" else "a covering sixth of them", "all" if tier == "thorough" else "a third of the")

class Run:
    def __init__(self, cls, direction, model=None):
        from switss.solver import MILP, LP
        self.m = model if model is not None else {"milp": MILP, "lp": LP}[cls](objective=direction) if direction != "min" or cls == "milp" else LP()
        self.cls = cls; self.dir = direction; self.vs = []; self.cons = {}; self.obj = [0] * 0; self.ids = []
    def op(self, o):
        if o[0] == "add":
            r = self.m.add_variables(list(o[1])); n = len(self.vs); self.vs += [(d, None, None) for d in o[1]]; return self.expect(r, n, len(o[1]))
        if o[0] == "addb":
            r = self.m.add_variables_w_bounds([tuple(x) for x in o[1]]); n = len(self.vs); self.vs += [tuple(x) for x in o[1]]; return self.expect(r, n, len(o[1]))
        if o[0] == "addn":
            r = self.m.add_variables(o[1]); n = len(self.vs); self.vs += [("real", None, None)] * o[1]; return self.expect(r, n, o[1])
        if o[0] == "var": return self.op(["addn", 1] if self.cls == "lp" else ["add", ["real"]])
        if o[0] == "con":
            c = [0] * len(self.vs)
            for i, k in o[1]: c[i] += k
            r = self.m.add_constraint([tuple(x) for x in o[1]], o[2], o[3])
            if r in self.cons: return "constraint index %s was given twice" % r
            self.cons[r] = (c, o[2], o[3]); self.ids.append(r)
        if o[0] == "rem":
            k = o[1]
            live = [i for i in self.ids if i in self.cons]
            if k < len(live): self.m.remove_constraint(live[k]); del self.cons[live[k]]
        if o[0] == "obj":
            c = [0] * len(self.vs)
            for i, k in o[1]: c[i] += k
            self.m.set_objective_function([tuple(x) for x in o[1]]); self.obj = c
    def expect(self, r, n, k):
        got = [r] if isinstance(r, int) else list(r)
        if got != list(range(n, n + k)): return "indices of new variables are %s" % (r,)
    def solve(self, solver):
        if not self.cons or any(o and all(i >= len(c) or not c[i] for c, _, _ in self.cons.values()) and self.vs[i][1 if (o > 0) == (self.dir == "min") else 2] is None and self.vs[i][0] != "binary" for i, o in enumerate(self.obj)):
            self.kind = "skipped"; return None
        want, val = optimum(self.vs, self.cons.values(), self.obj, self.dir)
        res = self.m.solve(solver); desc = "%s of %s, variables %s, constraints %s (%s): " % (self.dir, self.obj, self.vs, list(self.cons.values()), solver)
        self.kind = want
        ints = any(d != "real" for d, _, _ in self.vs)
        if want != "optimal":
            allowed = {want} | ({"undefined", "notsolved", "infeasible", "unbounded"} if solver == "glpk" else {"infeasible", "unbounded", "undefined", "notsolved"} if ints else set())
            if want == "unbounded" and res.status == "optimal" and solver == "cbc" and abs(float(res.value)) > 1e9: return None
            if res.status not in allowed: return desc + "status %s, expected %s" % (res.status, want)
            return None
        if res.status != "optimal": return desc + "status %s, the optimum is %s" % (res.status, val)
        x = [float(v) for v in res.result_vector]
        if len(x) != len(self.vs): return desc + "result vector %s" % x
        tol = 1e-5 * max([1] + [abs(v) for v in x])                       # solvers print few digits
        for xi, (d, lb, ub) in zip(x, self.vs):
            if d == "binary": lb, ub = 0, 1
            if lb is not None and xi < lb - tol or ub is not None and xi > ub + tol: return desc + "result %s violates the bounds" % x
            if d != "real" and abs(xi - round(xi)) > tol: return desc + "result %s is not integral" % x
        for c, s, r in self.cons.values():
            l = sum(a * b for a, b in zip(c, x))
            if s in ("<=", "=") and l > r + tol or s in (">=", "=") and l < r - tol: return desc + "result %s violates a constraint" % x
        if abs(sum(a * b for a, b in zip(self.obj, x)) - float(val)) > tol: return desc + "result %s does not attain the optimum %s" % (x, val)
        if abs(float(res.value) - float(val)) > tol: return desc + "value %s, the optimum is %s" % (res.value, val)

def check(case, ctx):
    import scipy.sparse as sp
    from switss.solver import MILP, LP
    if case["kind"] == "big": return big(case, ctx)
    if case["kind"] == "pairs": return pairs(case, ctx, lambda dr: MILP(objective=dr), ("cbc", "cbc", "glpk"))
    if case["kind"] == "ops":
        cls, setup = VARS[case["vars"]]
        for k, rest in enumerate(itertools.product(range(len(OPS)), repeat=case["depth"] - 2)):
            if case["thin"] > 1 and (k + case["pre"][0] + case["vars"]) % case["thin"]: continue
            seq = setup + (BOX if case["box"] else []) + [OPS[i] for i in case["pre"] + list(rest)]
            r = Run(cls, case["dir"]); ctx.trace()
            for o in seq + [["solve"]]:
                try: e = r.solve(case["solver"]) if o == ["solve"] else r.op(o); ctx.op()
                except Exception as x: e = "%s: %s" % (type(x).__name__, x)
                if e: return ctx.fail("%s, after %s: %s" % (cls, seq, e))
            ctx.outcome(r.kind); ctx.state(case["vars"], case["dir"], str(list(r.cons.values())), str(r.obj), len(r.vs))
        return
    Bs = [(1, 2), (0, 3), (-1, 4), (2, 2), (4, -2), (0, 0), (1.5, 2.25)]; Os = [(1, 1), (1, -1), (-1, 2), (0, 1), (0, 0), None]
    doms = [None, ["integer", "real"], ["integer", "integer"], ["binary", "real"], ["real", "binary"]]; bnds = [None, [(0, 2), (-1, 3)], [(None, 2), (0, None)]]
    conv = [lambda a: np.array(a, dtype=float), lambda a: np.matrix(a), lambda a: sp.dok_matrix(np.array(a, dtype=float)), lambda a: sp.csr_matrix(np.array(a, dtype=float)), lambda a: [list(x) for x in a], lambda a: sp.coo_matrix(np.array(a, dtype=float))]
    if case["kind"] == "mat": probs = [([a[:2], a[2:]], 2, case["at"] + j * 1 + 37 * r) for j, a in enumerate(case["A"]) for r in range(case["reps"])]
    else:
        probs = []
        for j in range(case["n"]):
            x = case["at"] * 31 + j * 7
            probs.append(([[((x >> (2 * i + k)) % 4) - 1 for i in range(3)] for k in range(3)], 3, x))
    for A, n, x in probs:
        b = list(Bs[x % 7]) + ([x % 3] if n == 3 else []); o = Os[(x // 2) % 6]; dom = doms[(x // 3) % 5]; bd = bnds[(x // 5) % 3]; sense = ("<=", ">=")[(x // 7) % 2]; d = ("min", "max")[x % 2]
        o = None if o is None else list(o) + [1] * (n - 2); dom = None if dom is None else dom + ["real"] * (n - 2); bd = None if bd is None else bd + [(0, 1)] * (n - 2)
        Am = conv[x % 6](A); bm = [np.array(b, dtype=float), np.matrix(b).T, b][x % 3]; om = None if o is None else [np.array(o), np.matrix(o).T, list(o)][(x // 3) % 3]
        ctx.trace(); ctx.op()
        what = "A=%s (%s) b=%s opt=%s domains=%s bounds=%s: " % (A, type(Am).__name__, b, o, dom, bd)
        if dom is None and bd is None: m = LP.from_coefficients(Am, bm, om, sense, d); cls = "lp"
        else: m = MILP.from_coefficients(Am, bm, om, dom or ["real"] * n, sense=sense, objective=d, bounds=bd); cls = "milp"
        r = Run(cls, d, m); r.vs = [((dom or ["real"] * n)[i],) + (tuple(bd[i]) if bd else (None, None)) for i in range(n)]
        r.cons = {i: (list(A[i]), sense, b[i]) for i in range(len(A))}; r.ids = list(range(len(A))); r.obj = o or [0] * n
        solver = "glpk" if x % 4 == 3 else "cbc"
        e = r.solve(solver); ctx.outcome("mat", r.kind); ctx.state(str(A), x % 210)
        if not e and x % 2:             # and go on building on it
            for op in (["con", [[0, 1], [1, 1]], "<=", 1], ["var"], ["con", [[n, 1], [0, -1]], ">=", 1], ["con", [[n, 1]], "<=", 5], ["rem", 1]):
                e = e or r.op(op); ctx.op()
            e = e or r.solve(solver)
        if e: return ctx.fail(what + e)
