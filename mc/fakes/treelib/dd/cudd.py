"""Stand-in for the part of dd.cudd that switss uses: declared variables, the propositional expression syntax of dd
(~ ! & /\\ | \\/ => -> <=> TRUE FALSE, parentheses) and pick_iter, which, as documented, assigns the variables in the
support of the expression unless care_vars names others. Expressions are decided on their full truth table."""
import itertools, re

_TOK = re.compile(r"\s*(=>|->|<=>|<->|/\\|\\/|&&|\|\||[&|~!()#^]|[A-Za-z_][A-Za-z0-9_']*)")

class Function:
    def __init__(self, bdd, f, names): self.bdd, self.f, self.names = bdd, f, names
    def support_set(self): return self.bdd.support(self)

class BDD:
    def __init__(self, *a, **kw): self.vars = []
    def declare(self, *vs):
        for v in vs:
            if v not in self.vars: self.vars.append(v)
    def var(self, v):
        if v not in self.vars: raise ValueError("undeclared variable " + v)
        return Function(self, lambda m: m[v], {v})
    def add_expr(self, e):
        toks, pos = [], 0
        e = e.strip()
        while pos < len(e):
            m = _TOK.match(e, pos)
            if not m: raise ValueError("cannot parse: " + e[pos:])
            toks.append(m.group(1)); pos = m.end()
        names = set(); i = [0]
        def peek(): return toks[i[0]] if i[0] < len(toks) else None
        def take():
            t = peek(); i[0] += 1; return t
        def iff():
            a = imp()
            while peek() in ("<=>", "<->"):
                take(); b = imp(); a = (lambda a, b: lambda m: a(m) == b(m))(a, b)
            return a
        def imp():
            a = orr()
            if peek() in ("=>", "->"):
                take(); b = imp(); return lambda m: (not a(m)) or b(m)
            return a
        def orr():
            a = andd()
            while peek() in ("|", "\\/", "||"):
                take(); b = andd(); a = (lambda a, b: lambda m: a(m) or b(m))(a, b)
            return a
        def andd():
            a = nott()
            while peek() in ("&", "/\\", "&&"):
                take(); b = nott(); a = (lambda a, b: lambda m: a(m) and b(m))(a, b)
            return a
        def nott():
            if peek() in ("~", "!"):
                take(); a = nott(); return lambda m: not a(m)
            return atom()
        def atom():
            t = take()
            if t == "(":
                a = iff()
                if take() != ")": raise ValueError("syntax error in: " + e)
                return a
            if t is None or not re.match(r"[A-Za-z_]", t): raise ValueError("syntax error in: " + e)
            if t in ("TRUE", "True", "FALSE", "False"):
                v = t.upper() == "TRUE"; return lambda m: v
            if t not in self.vars: raise ValueError("undeclared variable " + t)
            names.add(t); return lambda m: m[t]
        f = iff()
        if peek() is not None: raise ValueError("syntax error in: " + e)
        return Function(self, f, names)
    def _table(self, u, vs):
        for bits in itertools.product((False, True), repeat=len(vs)):
            m = dict(zip(vs, bits))
            yield m, u.f(m)
    def support(self, u):
        vs = [v for v in self.vars if v in u.names]; val = {tuple(m[v] for v in vs): x for m, x in self._table(u, vs)}
        out = set()
        for k, v in enumerate(vs):
            if any(x != val[b[:k] + (not b[k],) + b[k + 1:]] for b, x in val.items()): out.add(v)
        return out
    def pick_iter(self, u, care_vars=None):
        sup = self.support(u); vs = [v for v in self.vars if v in u.names]
        care = sup if care_vars is None else set(care_vars) | sup
        order = [v for v in self.vars if v in care]
        for bits in itertools.product((False, True), repeat=len(order)):
            m = dict(zip(order, bits)); full = dict.fromkeys(vs, False); full.update(m)
            if u.f(full): yield dict(m)
    def count(self, u, nvars=None): return sum(1 for _ in self.pick_iter(u))
