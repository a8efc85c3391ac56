"""Exact reference semantics (rational arithmetic), written independently of the code under test."""
from fractions import Fraction as F
import itertools

def solve(A, b):
    """Gaussian elimination over the rationals"""
    n = len(A); M = [list(map(F, A[i])) + [F(b[i])] for i in range(n)]
    for c in range(n):
        p = next(i for i in range(c, n) if M[i][c] != 0)
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]; M[c] = [x * iv for x in M[c]]
        for i in range(n):
            if i != c and M[i][c] != 0:
                f = M[i][c]; M[i] = [x - f * y for x, y in zip(M[i], M[c])]
    return [M[i][n] for i in range(n)]

def _sccs(succ):
    """strongly connected components, successors first (Tarjan, iterative)"""
    num = {}; low = {}; st = []; on = set(); out = []
    for r in succ:
        if r in num: continue
        num[r] = low[r] = len(num); st.append(r); on.add(r); work = [(r, iter(succ[r]))]
        while work:
            v, it = work[-1]
            for w in it:
                if w not in num:
                    num[w] = low[w] = len(num); st.append(w); on.add(w); work.append((w, iter(succ[w]))); break
                if w in on: low[v] = min(low[v], num[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == num[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    out.append(c)
    return out

class Ref:
    """acts: per state a list of distributions {target: Fraction}; goal: set of absorbing target states.
    Indices that are no state (>= len(acts)) are absorbing."""
    def __init__(self, acts, goal, rew=None):
        self.acts = acts; self.n = len(acts); self.goal = set(goal); self.rew = rew
    def _policy_value(self, pol, states, one, rew=False):
        """value of a policy on `states` (proper on them), one: states of value 1, others outside have value 0; larger ones by
        strongly connected components"""
        if len(states) <= 12: return self._block_value(pol, states, one, rew, {})
        S = set(states); v = {}
        for c in _sccs({s: [t for t, p in self.acts[s][pol[s]].items() if t in S and p] for s in states}): v.update(self._block_value(pol, c, one, rew, v))
        return v
    def _block_value(self, pol, states, one, rew, known):
        idx = {s: i for i, s in enumerate(states)}; n = len(states)
        A = [[F(0)] * n for _ in range(n)]; b = [F(0)] * n
        for s in states:
            i = idx[s]; A[i][i] += 1
            if rew: b[i] += self.rew[s][pol[s]]
            for t, p in self.acts[s][pol[s]].items():
                if t in idx: A[i][idx[t]] -= p
                elif t in known: b[i] += p * known[t]
                elif not rew and t in one: b[i] += p
        v = solve(A, b) if n else []
        return {s: v[idx[s]] for s in states}
    def _iterate(self, pol, states, better, rew=False):
        while True:
            v = self._policy_value(pol, states, self.goal, rew)
            val = lambda t: v[t] if t in v else (F(1) if not rew and t in self.goal else F(0))
            ch = False
            for s in states:
                q = [(self.rew[s][i] if rew else F(0)) + sum((p * val(t) for t, p in d.items()), F(0)) for i, d in enumerate(self.acts[s])]
                cur = q[pol[s]]
                bi = pol[s]
                for i, x in enumerate(q):
                    if better(x, q[bi]): bi = i
                if better(q[bi], cur): pol[s] = bi; ch = True
            if not ch: return v
    def prmax(self):
        trans = [s for s in range(self.n) if s not in self.goal]
        pol = {}; can = set(self.goal); ch = True
        while ch:
            ch = False
            for s in trans:
                if s in can: continue
                for i, d in enumerate(self.acts[s]):
                    if any(t in can and p > 0 for t, p in d.items()): pol[s] = i; can.add(s); ch = True; break
        states = [s for s in trans if s in can]
        v = self._iterate(pol, states, lambda x, y: x > y)
        return [F(1) if s in self.goal else v.get(s, F(0)) for s in range(self.n)]
    def prmin(self):
        trans = [s for s in range(self.n) if s not in self.goal]
        avoid = set(trans); ch = True           # some scheduler never reaches the goal
        while ch:
            ch = False
            for s in list(avoid):
                if not any(all((t in avoid or (t >= self.n and t not in self.goal)) for t, p in d.items() if p > 0) for d in self.acts[s]):
                    avoid.discard(s); ch = True
        states = [s for s in trans if s not in avoid]
        v = self._iterate({s: 0 for s in states}, states, lambda x, y: x < y)
        return [F(1) if s in self.goal else v.get(s, F(0)) for s in range(self.n)]
    def rewards(self, mode):
        """expected total reward up to leaving the states (no end components)"""
        states = [s for s in range(self.n) if s not in self.goal]
        v = self._iterate({s: 0 for s in states}, states, (lambda x, y: x > y) if mode == "max" else (lambda x, y: x < y), rew=True)
        return [v.get(s, F(0)) for s in range(self.n)]

def dist(d):
    out = {}
    for t, p in d: out[t] = out.get(t, F(0)) + F(p)
    return {t: p for t, p in out.items() if p}

def of_spec(spec, goal=None):
    """Ref of a spec: rf specs have goal n; others use their target label (targets become absorbing)"""
    acts = [[dist(d) for d in A] for A in spec["a"]]; n = len(acts)
    rew = None if spec.get("R") is None else [[F(r) for r in R] for R in spec["R"]]
    if spec["rf"]: return Ref(acts, {n}, rew)
    T = set(spec["L"]["target"]) if goal is None else set(goal)
    return Ref([[{s: F(1)}] if s in T else acts[s] for s in range(n)], T, rew)

def restrict(spec, keep):
    """subsystem of an rf spec: transitions to dropped states go to fail; dropped states are no states any more"""
    n = len(spec["a"]); keep = set(keep)
    acts = []
    for s in range(n):
        if s not in keep: acts.append([{n + 1: F(1)}]); continue
        A = []
        for d in spec["a"][s]:
            e = {}
            for t, p in d:
                t2 = t if t in keep or t >= n else n + 1
                e[t2] = e.get(t2, F(0)) + F(p)
            A.append({t: p for t, p in e.items() if p})
        acts.append(A)
    rew = None if spec.get("R") is None else [[F(r) if s in keep else F(0) for r in R] for s, R in enumerate(spec["R"])]
    return Ref(acts, {n}, rew)

_sub = {}
def subset_values(spec, mode, rew=False):
    """{frozenset(keep): exact value of the initial state in the subsystem}, over all sets of transient states"""
    key = (str(spec["a"]), str(spec.get("R")) if rew else "", mode, rew)
    if key in _sub: return _sub[key]
    n = len(spec["a"]); out = {}
    for k in range(n + 1):
        for keep in itertools.combinations(range(n), k):
            if 0 not in keep: out[frozenset(keep)] = F(0); continue
            r = restrict(spec, keep)
            out[frozenset(keep)] = (r.rewards(mode) if rew else r.prmin() if mode == "min" else r.prmax())[0]
    if len(_sub) > 2000: _sub.clear()
    _sub[key] = out
    return out

def thresholds(values, top, extra=True):
    """representatives of all intervals between the values that some subsystem attains (midpoints), one threshold
    above the largest value if extra, all in (0, top]"""
    vs = sorted(set(values) | {F(0)}); out = []
    for x, y in zip(vs, vs[1:]): out.append((x + y) / 2)
    m = vs[-1]
    if extra:
        if top is None: out.append(m + 1)
        elif m < top: out.append((m + top) / 2)
    return out

def reach(edges, start, block=()):
    seen = set(start); st = list(start)
    while st:
        s = st.pop()
        if s in block: continue
        for t in edges.get(s, ()):
            if t not in seen: seen.add(t); st.append(t)
    return seen

def sccs(n, edges):
    R = [reach(edges, [s]) for s in range(n)]
    return [frozenset(t for t in range(n) if t in R[s] and s in R[t]) for s in range(n)]

def mecs(acts):
    """acts: per state list of successor sets. Returns (component of each state, is it a proper end component)"""
    n = len(acts)
    best = [None] * n
    def is_ec(U):
        e = {}
        for s in U:
            good = [a for a in acts[s] if a <= U]
            if not good: return False
            e[s] = set().union(*good)
        return all(reach(e, [s]) >= U for s in U)
    if n <= 6:
        for k in range(n, 0, -1):
            for U in map(frozenset, itertools.combinations(range(n), k)):
                if all(best[s] is None for s in U) and is_ec(U):
                    for s in U: best[s] = U
    else:                                       # refinement to a fixed point
        work = [frozenset(range(n))]
        while work:
            U = set(work.pop()); ch = True
            while ch:
                ch = False
                for s in list(U):
                    if not any(a <= U for a in acts[s]): U.discard(s); ch = True
            if not U: continue
            e = {s: set().union(*[a for a in acts[s] if a <= U]) for s in U}
            comps = {frozenset(t for t in U if t in (Rs := reach(e, [s])) and s in reach(e, [t])) for s in U}
            if len(comps) == 1:
                for s in U: best[s] = frozenset(U)
            else: work += list(comps)
    comp = [best[s] if best[s] is not None else frozenset([s]) for s in range(n)]
    return comp, [best[s] is not None for s in range(n)]

def reduction(spec):
    """reference reduction of a general spec to reachability form.
    Returns (kept states, rows {(s,i): ({kept dest: p}, goal p, fail p)})"""
    a = [[dist(d) for d in A] for A in spec["a"]]; n = len(a); T = set(spec["L"]["target"]); init = spec["L"]["init"][0]
    fwd = {s: set().union(*[set(d) for d in a[s]]) for s in range(n)}
    bwd = {s: set() for s in range(n)}
    for s in range(n):
        for t in fwd[s]: bwd[t].add(s)
    keep = reach(fwd, [init], T) & reach(bwd, T)
    rows = {}
    for s in keep:
        for i, d in enumerate(a[s]):
            if s in T: rows[(s, i)] = ({}, F(1), F(0))
            else: rows[(s, i)] = ({t: p for t, p in d.items() if t in keep}, F(0), sum((p for t, p in d.items() if t not in keep), F(0)))
    return keep, rows

def farkas(spec):
    """dense documented system (A, b) in spec coordinates: rows (s,i), columns transient states"""
    n = len(spec["a"]); A = {}; b = {}
    for s in range(n):
        for i, d in enumerate(spec["a"][s]):
            d = dist(d); row = [F(0)] * n; row[s] += 1
            for t, p in d.items():
                if t < n: row[t] -= p
            A[(s, i)] = row; b[(s, i)] = d.get(n, F(0))
    return A, b
