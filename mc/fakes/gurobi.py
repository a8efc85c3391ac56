"""Stand-ins for the solvers that are not installed: a gurobipy module with the documented interface (the part a modelling
layer can need), and pulp's GUROBI_CMD / CPLEX_PY classes. They answer truthfully: gurobipy problems are solved by HiGHS
(scipy), indicator constraints by enumerating the values of their binary variables; pulp's problems by cbc."""
import itertools, math, sys, types
import numpy as np
from scipy.optimize import linprog, milp, LinearConstraint, Bounds

class GurobiError(Exception):
    pass

class GRB:
    MINIMIZE, MAXIMIZE = 1, -1
    BINARY, CONTINUOUS, INTEGER = "B", "C", "I"
    LESS_EQUAL, GREATER_EQUAL, EQUAL = "<", ">", "="
    INFINITY = 1e100
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = range(1, 14)
    class Status:
        LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = range(1, 14)

def _num(x): return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))

class _Expr:
    def _lin(self): raise NotImplementedError
    def __add__(self, o):
        a = self._lin(); b = _lin(o); r = LinExpr(); r.terms = dict(a.terms); r.const = a.const + b.const
        for v, c in b.terms.items(): r.terms[v] = r.terms.get(v, 0.0) + c
        return r
    __radd__ = __add__
    def __mul__(self, k):
        if not _num(k): raise GurobiError("unsupported factor %r" % (k,))
        a = self._lin(); r = LinExpr(); r.terms = {v: c * float(k) for v, c in a.terms.items()}; r.const = a.const * float(k); return r
    __rmul__ = __mul__
    def __neg__(self): return self * -1.0
    def __sub__(self, o): return self + _lin(o) * -1.0
    def __rsub__(self, o): return _lin(o) + self * -1.0
    def __truediv__(self, k): return self * (1.0 / k)
    def __le__(self, o): return TempConstr(self - o, "<")
    def __ge__(self, o): return TempConstr(self - o, ">")
    def __eq__(self, o): return TempConstr(self - o, "=")
    __hash__ = object.__hash__

class Var(_Expr):
    def __init__(self, model, idx, lb, ub, vtype, name):
        self.model, self.index, self.lb, self.ub, self.vtype, self.VarName = model, idx, lb, ub, vtype, name
    LB = property(lambda s: s.lb, lambda s, v: setattr(s, "lb", v)); UB = property(lambda s: s.ub, lambda s, v: setattr(s, "ub", v))
    def _lin(self): r = LinExpr(); r.terms = {self: 1.0}; return r
    @property
    def x(self):
        if self.model._x is None or self.index >= len(self.model._x): raise AttributeError("Unable to retrieve attribute 'x'")
        return float(self.model._x[self.index])
    X = x
    __hash__ = object.__hash__

class LinExpr(_Expr):
    def __init__(self, a=None, b=None):
        self.terms = {}; self.const = 0.0
        if a is None: return
        if b is not None:
            for c, v in (zip(a, b) if not isinstance(b, Var) else [(a, b)]): self.add(v, c)
        elif isinstance(a, (list, tuple)):
            for c, v in a: self.add(v, c)
        else:
            e = _lin(a); self.terms = dict(e.terms); self.const = e.const
    def _lin(self): return self
    def add(self, e, mult=1.0):
        e = _lin(e); self.const += e.const * mult
        for v, c in e.terms.items(): self.terms[v] = self.terms.get(v, 0.0) + c * float(mult)
    def addTerms(self, cs, vs):
        for c, v in (zip(cs, vs) if not isinstance(vs, Var) else [(cs, vs)]): self.add(v, c)
    def addConstant(self, c): self.const += c
    def size(self): return len(self.terms)
    def getValue(self): return self.const + sum(c * v.x for v, c in self.terms.items())

def _lin(x):
    if isinstance(x, _Expr): return x._lin()
    if _num(x): r = LinExpr(); r.const = float(x); return r
    raise GurobiError("unsupported operand %r" % (x,))

class TempConstr:
    def __init__(self, expr, sense): self.expr, self.sense = expr, sense
    def __bool__(self): raise GurobiError("Constraint has no bool value (are you trying \"lb <= expr <= ub\"?)")
    def __rshift__(self, o): raise NotImplementedError
    def __lshift__(self, o): raise NotImplementedError

def _shift(self, o):
    """(binvar == value) >> (linear constraint)"""
    if self.sense != "=" or list(self.expr.terms.values()) != [1.0] or -self.expr.const not in (0.0, 1.0): raise GurobiError("left side of an indicator constraint must be binvar == 0/1")
    if not isinstance(o, TempConstr): raise GurobiError("right side of an indicator constraint must be a constraint")
    return Indicator(next(iter(self.expr.terms)), int(-self.expr.const), o)
TempConstr.__rshift__ = _shift; TempConstr.__lshift__ = _shift

class Indicator:
    def __init__(self, var, val, con): self.var, self.val, self.con = var, val, con

class Constr:
    def __init__(self, model, terms, sense, rhs, name, ind=None): self.model, self.terms, self.sense, self.rhs, self.ConstrName, self.ind = model, terms, sense, rhs, name, ind

def quicksum(xs):
    r = LinExpr()
    for x in xs: r.add(x)
    return r

class _Params:
    pass

class Model:
    def __init__(self, name="", env=None):
        self._vars, self._cons, self._obj, self._sense, self._x, self._val = [], [], LinExpr(), GRB.MINIMIZE, None, None
        self.status = self.Status = GRB.LOADED; self.params = {}; self.Params = _Params(); self.ModelName = name
    force, calls = None, 0
    def setParam(self, k, v): self.params[k.lower()] = v
    def update(self): pass
    def dispose(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def addVar(self, lb=0.0, ub=GRB.INFINITY, obj=0.0, vtype=GRB.CONTINUOUS, name="", column=None):
        if not _num(lb) or not _num(ub): raise TypeError("must be real number")
        if vtype not in ("B", "C", "I"): raise GurobiError("vtype")
        if vtype == "B": lb, ub = max(lb, 0.0), min(ub, 1.0)
        v = Var(self, len(self._vars), float(lb), float(ub), vtype, name); self._vars.append(v)
        if obj: self._obj.add(v, obj)
        return v
    def addVars(self, n, lb=0.0, ub=GRB.INFINITY, obj=0.0, vtype=GRB.CONTINUOUS, name=""): return {i: self.addVar(lb, ub, obj, vtype, "%s[%d]" % (name, i)) for i in range(n)}
    def setObjective(self, expr, sense=None): self._obj = LinExpr(_lin(expr)); self._sense = self._sense if sense is None else sense; self._forget()
    def _forget(self): self._x = None; self.status = self.Status = GRB.LOADED
    def addConstr(self, c, name="", *rest):
        if isinstance(c, Indicator):
            if c.var.vtype != "B": raise GurobiError("indicator variable is not binary")
            k = Constr(self, dict(c.con.expr.terms), c.con.sense, -c.con.expr.const, name, (c.var, c.val))
        elif isinstance(c, TempConstr): k = Constr(self, dict(c.expr.terms), c.sense, -c.expr.const, name)
        else: raise GurobiError("Unsupported type (%s) for constraint" % type(c))
        self._cons.append(k); self._forget(); return k
    addLConstr = addConstr
    def addGenConstrIndicator(self, binvar, binval, lhs, sense=None, rhs=None, name=""):
        con = lhs if isinstance(lhs, TempConstr) else TempConstr(_lin(lhs) - rhs, {"<": "<", "<=": "<", "=": "=", "==": "=", ">": ">", ">=": ">"}[sense])
        return self.addConstr(Indicator(binvar, int(binval), con), name)
    def chgCoeff(self, constr, var, val):
        if constr.ind is not None: raise GurobiError("not a linear constraint")
        constr.terms[var] = float(val); self._forget()
    def remove(self, item):
        for x in (item if isinstance(item, (list, tuple)) else [item]):
            if isinstance(x, Constr):
                if not any(c is x for c in self._cons): raise GurobiError("constraint not in model")
                self._cons = [c for c in self._cons if c is not x]
            else: raise GurobiError("cannot remove %r" % (x,))
        self._forget()
    def getVars(self): return list(self._vars)
    def getConstrs(self): return [c for c in self._cons if c.ind is None]
    NumVars = property(lambda s: len(s._vars))
    @property
    def objVal(self):
        if self._val is None: raise AttributeError("Unable to retrieve attribute 'objVal'")
        return self._val
    ObjVal = objVal
    def optimize(self, callback=None):
        self._x = self._val = None
        inds = sorted({c.ind[0].index for c in self._cons if c.ind is not None}); n = len(self._vars); sgn = 1.0 if self._sense == GRB.MINIMIZE else -1.0
        obj = np.zeros(n)
        for v, c in self._obj.terms.items(): obj[v.index] += sgn * c
        best = None; status = GRB.INFEASIBLE
        todo = [{}]
        while todo:                      # branch over the indicator variables only where the relaxation leaves a choice
            fix = todo.pop()
            st, x = self._solve(obj, fix)
            if st == "infeasible": continue
            if st == "unbounded": status = GRB.UNBOUNDED; break
            val = float(obj @ x) if n else 0.0
            if best is not None and val >= best[0] - 1e-12: continue
            bad = next((c.ind[0].index for c in self._cons if c.ind is not None and c.ind[0].index not in fix), None)
            if bad is None: best = (val, x); status = GRB.OPTIMAL; continue
            todo += [{**fix, bad: 1}, {**fix, bad: 0}]
        self.status = self.Status = status
        if status == GRB.OPTIMAL:
            self._x = best[1]; self._val = sgn * best[0] + self._obj.const
        Model.calls += 1
        if Model.force is not None and Model.force[0] == Model.calls:          # the harness dictates another end of this call
            self.status = self.Status = Model.force[1]
            if not Model.force[2]: self._x = self._val = None
    def _solve(self, obj, fix):
        n = len(self._vars); rows, lo, hi = [], [], []
        lb = [-np.inf if v.lb <= -1e20 else v.lb for v in self._vars]; ub = [np.inf if v.ub >= 1e20 else v.ub for v in self._vars]
        for i, q in fix.items(): lb[i] = max(lb[i], q); ub[i] = min(ub[i], q)
        if any(l > u for l, u in zip(lb, ub)): return "infeasible", None
        for c in self._cons:
            if c.ind is not None and fix.get(c.ind[0].index) != c.ind[1]: continue
            r = np.zeros(n)
            for v, k in c.terms.items(): r[v.index] += k
            if not r.any():
                if (c.sense == "<" and 0 > c.rhs + 1e-9) or (c.sense == ">" and 0 < c.rhs - 1e-9) or (c.sense == "=" and abs(c.rhs) > 1e-9): return "infeasible", None
                continue
            rows.append(r); lo.append(-np.inf if c.sense == "<" else c.rhs); hi.append(np.inf if c.sense == ">" else c.rhs)
        if not n: return "optimal", np.zeros(0)
        integ = np.array([0 if v.vtype == "C" else 1 for v in self._vars])
        def run(o, integ):
            if integ.any(): return milp(o, integrality=integ, bounds=Bounds(lb, ub), constraints=LinearConstraint(np.array(rows), lo, hi) if rows else None, options=dict(mip_rel_gap=0))
            A, b = [], []; E, e = [], []
            for r, l, h in zip(rows, lo, hi):
                if l == h: E.append(r); e.append(l); continue
                if h < np.inf: A.append(r); b.append(h)
                if l > -np.inf: A.append(-r); b.append(-l)
            return linprog(o, A_ub=np.array(A) if A else None, b_ub=b or None, A_eq=np.array(E) if E else None, b_eq=e or None, bounds=list(zip(lb, ub)), method="highs", options=dict(primal_feasibility_tolerance=1e-9, dual_feasibility_tolerance=1e-9))
        r = run(obj, integ)
        if r.status == 0: return "optimal", np.array([round(x) if q else x for x, q in zip(r.x, integ)], dtype=float) if integ.any() else r.x
        z = run(np.zeros(n), integ)
        return ("unbounded", None) if z.status == 0 else ("infeasible", None)

def install():
    """makes `import gurobipy` find the stand-in and pulp's gurobi/cplex classes answer through cbc"""
    m = types.ModuleType("gurobipy")
    for k in ("GRB", "Model", "Var", "LinExpr", "Constr", "TempConstr", "quicksum", "GurobiError"): setattr(m, k, globals()[k])
    m.gurobi = m; sys.modules["gurobipy"] = m
    import pulp
    calls = []
    class GUROBI_CMD(pulp.PULP_CBC_CMD):
        def __init__(self, mip=True, msg=True, timeLimit=None, gapRel=None, gapAbs=None, options=None, warmStart=False, keepFiles=False, path=None, threads=None, logPath=None, mip_start=False):
            for o in options or []:
                if len(o) != 2: raise pulp.PulpSolverError("options must be pairs")
            super().__init__(mip=mip, msg=False, gapRel=1e-9, options=["--integerT", "0"]); calls.append(("gurobi", dict(options or []), timeLimit))
    class CPLEX_PY(pulp.PULP_CBC_CMD):
        def __init__(self, mip=True, msg=True, timeLimit=None, gapRel=None, warmStart=False, logPath=None, threads=None):
            super().__init__(mip=mip, msg=False, gapRel=1e-9, options=["--integerT", "0"]); calls.append(("cplex", {}, timeLimit))
    class CPLEX_CMD(CPLEX_PY):
        def __init__(self, mip=True, msg=True, timeLimit=None, gapRel=None, gapAbs=None, options=None, **kw): super().__init__(mip, msg, timeLimit)
    for mod in (pulp, pulp.apis):
        mod.GUROBI_CMD = GUROBI_CMD; mod.GUROBI = GUROBI_CMD; mod.CPLEX_PY = CPLEX_PY; mod.CPLEX_CMD = CPLEX_CMD; mod.CPLEX = CPLEX_CMD
    return calls
