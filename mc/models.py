"""Reference models ("specs") that are enumerated exhaustively, and their presentations to the real code.

A spec is JSON: {"a": [[dist, ...] per state], "L": {label: [states]}, "AL": {label: [[s,i],...]}, "R": [[r,...] per state],
"t": "mdp"|"dtmc", "rf": bool}. A dist is a list of [state, "p/q"]. In a reachability-form spec with n transient states,
goal is state n and fail is state n+1; only the transient states are in "a" and state 0 is initial.
A presentation fixes what a spec leaves open: numbering of states, order of rows, action numbers, matrix format.
"""
import itertools, functools
from fractions import Fraction as F

H, T3, T23 = "1/2", "1/3", "2/3"

def fr(p): return F(p)

def dirac(t): return [[t, "1"]]
def half(s, t): return [[s, H], [t, H]]
def third(s, t): return [[s, T3], [t, T23]]
def tiny(s, t): return [[s, "1/1000000000"], [t, "999999999/1000000000"]]    # a transition that rounding must not lose
def noisy(s, t, u): return [[s, "1/10"], [t, "1/5"], [u, "7/10"]]          # floats 0.1+0.2+0.7 do not sum to exactly 1.0

def dists(targets, kinds):
    """all distributions of the given kinds over targets"""
    ts = list(targets); out = []
    if "d" in kinds: out += [dirac(t) for t in ts]
    if "h" in kinds: out += [half(s, t) for s, t in itertools.combinations(ts, 2)]
    if "t" in kinds: out += [third(s, t) for s, t in itertools.permutations(ts, 2)]
    if "e" in kinds: out += [tiny(s, t) for s, t in itertools.permutations(ts, 2)]
    if "n" in kinds: out += [noisy(*c) for c in itertools.combinations(ts, 3)]
    if "N" in kinds: out += [noisy(*c) for c in itertools.permutations(ts, 3)]
    return out

# ----- reachability forms -------------------------------------------------------------------------------------------
def succs(dist): return [t for t, p in dist if fr(p) > 0]

def rf_valid(a):
    """every transient state reachable from 0 and reaching goal"""
    n = len(a); goal = n
    seen = {0}; st = [0]
    while st:
        s = st.pop()
        if s >= n: continue
        for d in a[s]:
            for t in succs(d):
                if t not in seen: seen.add(t); st.append(t)
    if not all(s in seen for s in range(n)): return False
    if goal not in seen: return False
    can = {goal}; ch = True
    while ch:
        ch = False
        for s in range(n):
            if s not in can and any(t in can for d in a[s] for t in succs(d)): can.add(s); ch = True
    return all(s in can for s in range(n))

def rename(a, pi):
    n = len(a); b = [None] * n
    for s in range(n):
        b[pi[s]] = sorted(sorted([pi[t] if t < n else t, p] for t, p in d) for d in a[s])
    return b

def rf_canonical(a):
    """representative under renaming of the non-initial transient states"""
    n = len(a); me = rename(a, list(range(n)))
    for q in itertools.permutations(range(1, n)):
        if rename(a, [0] + list(q)) < me: return False
    return True

def rf_spec(a, t="mdp", **kw):
    n = len(a)
    s = dict(a=a, rf=True, t=t, L={"init": [0]}, AL={}, R=None); s.update(kw)
    return s

@functools.lru_cache(None)
def _rf_enum(n, kinds, maxact, maxtotal):
    D = dists(range(n + 2), kinds)
    per = []
    for k in range(1, maxact + 1): per += [list(c) for c in itertools.combinations(D, k)]
    out = []
    for a in itertools.product(per, repeat=n):
        if maxtotal and sum(map(len, a)) > maxtotal: continue
        a = list(a)
        if rf_valid(a) and (n < 3 or rf_canonical(a)): out.append(a)
    return out

def rf_enum(n, kinds="dh", maxact=2, maxtotal=0, t="mdp"):
    """every reachability form with n transient states, every state having 1..maxact distinct actions out of all
    distributions of the kinds (d: Dirac, h: 1/2-1/2, t: 1/3-2/3, e: 1e-9 and the rest, n: 1/10-1/5-7/10), at most maxtotal actions in all"""
    return [rf_spec(a, t) for a in _rf_enum(n, kinds, maxact, maxtotal)]

def rf_dtmcs(n, kinds="dh"): return rf_enum(n, kinds, 1, 0, "dtmc")

def ecfree(spec):
    """no end component among the transient states"""
    a = spec["a"]; n = len(a); U = set(range(n))
    ch = True
    while ch:          # greatest set in which one can stay forever
        ch = False
        for s in list(U):
            if not any(all(t in U for t in succs(d)) for d in a[s]): U.discard(s); ch = True
    return not U

def chain(k, p="1/2", back=True):
    """k states in a row, each succeeding with p, otherwise falling back to the start / fail"""
    q = str(1 - fr(p)); a = []
    for i in range(k):
        nxt = i + 1 if i + 1 < k else k
        a.append([[[nxt, p], [0 if back and i else k + 1, q]]])
    return rf_spec(a, "dtmc")

def birthdeath(k, p="2/5"):
    q = str(1 - fr(p)); a = []
    for i in range(k):
        up = i + 1 if i + 1 < k else k; dn = i - 1 if i else k + 1
        a.append([[[up, p], [dn, q]]])
    return rf_spec(a, "dtmc")

def btree(depth):
    """binary tree; leaf i moves to goal with probability (i+1)/(leaves+1)"""
    n = 2 ** (depth + 1) - 1; L = 2 ** depth; a = []
    for i in range(n):
        if 2 * i + 2 < n: a.append([[[2 * i + 1, T3], [2 * i + 2, T23]]])
        else:
            j = i - (n - L); p = F(j + 1, L + 1); a.append([[[n, str(p)], [n + 1, str(1 - p)]]])
    return rf_spec(a, "dtmc")

def grid(w, h, slip="1/10"):
    """grid MDP: right or down, slipping to the other direction, the last cell goes to goal"""
    n = w * h; s1 = str(1 - fr(slip)); a = []
    for y in range(h):
        for x in range(w):
            i = y * w + x; r = i + 1 if x + 1 < w else n + 1; d = i + w if y + 1 < h else n + 1
            if x + 1 == w and y + 1 == h: a.append([[[n, "9/10"], [n + 1, "1/10"]]]); continue
            a.append([[[r, s1], [d, slip]], [[d, s1], [r, slip]]] if r != d else [[[r, "1"]]])
    return rf_spec(a)

def ring(k, withgoal=None):
    """k states in a ring (one proper end component) with an exit action at every second state"""
    a = []
    for i in range(k):
        acts = [[[(i + 1) % k, "1"]]]
        if i % 2 == 0: acts.append([[k, H], [k + 1, H]])
        a.append(acts)
    return rf_spec(a)

def waits(k, size=1):
    """k proper end components of the given size one after the other, each left to the next one or to fail"""
    n = k * size; a = []
    for c in range(k):
        for j in range(size):
            i = c * size + j; nxt = (c + 1) * size if c + 1 < k else n
            a.append([[[c * size + (j + 1) % size, "1"]], [[nxt, "3/4"], [n + 1, "1/4"]]] if j == 0 else [[[c * size + (j + 1) % size, "1"]]])
    return rf_spec(a)

def wide(k):
    """one state with k actions (action j: goal with j/(k+1)), reached from the initial one"""
    acts = [[[2, str(F(j + 1, k + 1))], [3, str(1 - F(j + 1, k + 1))]] for j in range(k)]
    return rf_spec([[[[1, "1"]]], acts])

def layered(layers, width):
    """layered MDP with two actions per state, probabilities depending on the position"""
    n = 1 + layers * width; a = []
    def lay(l, j): return 1 + l * width + j % width if l < layers else (n if j % 2 == 0 else n + 1)
    a.append([[[lay(0, j), str(F(1, width))] for j in range(width)]])
    for l in range(layers):
        for j in range(width):
            p = F(j + 2, width + 4)
            a.append([[[lay(l + 1, j), str(p)], [lay(l + 1, j + 1), str(1 - p)]],
                      [[lay(l + 1, j + 1), str(p)], [n + 1, str(1 - p)]]])
    a = [[merge(d) for d in acts] for acts in a]
    return rf_spec(a) if rf_valid(a) else None

def detour(c, loop, exit="1/10"):
    """state 0 either retries until it moves to goal, or takes a row of c states that mostly ends in fail: the scheduler with
    the longest visits is not the one with the most visits of a single state, nor the best one"""
    n = c + 1; a = [[[[0, loop], [n, str(1 - fr(loop))]], [[1, "1"]]]]
    for i in range(1, n): a.append([[[i + 1, "1"]] if i + 1 < n else [[n, exit], [n + 1, str(1 - fr(exit))]]])
    return rf_spec(a)

def faint(q, mdp=False):
    """state 0 reaches goal directly, or through state 1 with a small probability q, or through state 2"""
    a = [[[[1, "1/4"], [2, "1/4"], [3, "1/4"], [4, "1/4"]]], [[[3, q], [4, str(1 - fr(q))]]], [[[3, "1/3"], [4, "2/3"]]]]
    if mdp: a[1].append([[2, q], [4, str(1 - fr(q))]]); a[2].append([[1, H], [3, "1/3"], [4, "1/6"]])
    return rf_spec(a, "mdp" if mdp else "dtmc", eps="1/1000000")

FAINT = lambda: [faint(q, m) for q in ("1/2000", "1/20000", "1/100000") for m in (False, True)]

def blocks(m, ec=True, t="mdp"):
    """1+6m states: the initial state chooses one of m blocks at random; each block has its own probabilities, choices and (ec; not in every third block) proper
    end components of one and two states. Two-digit and three-digit numbers of states, rows and actions, none of them improbable"""
    n = 1 + 6 * m; a = [[[[1 + 6 * j, str(F(1, m))] for j in range(m)]]]
    for j in range(m):
        b = 1 + 6 * j; loop = ec and j % 3 != 1; p = F(j + 2, m + 4); q = F(m + 2 - j, m + 5)
        B = [[half(b + 1, b + 2), [[b + 1, T3], [n, T23]]],
             ([[[b + 1, "1"]]] if loop else [half(b + 3, b + 5)]) + [[[b + 3, "7/10"], [n, "1/10"], [n + 1, "1/5"]]],
             [[[b + 3, "1"]], [[b + 4, H], [n + 1, H]]],
             [[[b + 2, "1"]] if loop else [[b + 5, "1"]], [[n, str(q)], [b + 5, str(1 - q)]]],
             [[[b + 5, "9/10"], [n + 1, "1/10"]]],
             [[[n, str(p)], [n + 1, str(1 - p)]]]]
        a += B if t == "mdp" else [A[-1:] if i else A[:1] for i, A in enumerate(B)]
    return rf_spec(a, t)

def large(*ms, ec=True): return [blocks(m, e, t) for m in ms for e, t in (((True, "mdp"),) if ec else ()) + ((False, "mdp"), (False, "dtmc"))]

def merge(d):
    m = {}
    for t, p in d: m[t] = m.get(t, F(0)) + fr(p)
    return [[t, str(p)] for t, p in sorted(m.items()) if p]

def families(size="quick"):
    """structured models that are larger than the complete enumeration reaches"""
    k = 1 if size == "quick" else 2
    out = [chain(i) for i in (4, 7, 6 * k + 5)] + [chain(5, "9/10", False), chain(6, "1/3")] + [birthdeath(i) for i in (3, 6, 10 * k)]
    out += [btree(2), btree(3)] + [grid(2, 2), grid(3, 2), grid(3, 3), grid(4, 2 + k)] + [ring(i) for i in (2, 3, 5, 6 * k + 1)] + [waits(3), waits(4), waits(2, 2)]
    out += [wide(3), wide(5 * k), detour(2, H), detour(4, H), detour(3, "3/4"), detour(2, "9/10", "19/20"), layered(1, 2), layered(2, 2), layered(2, 3), layered(3, 2 + k)]
    return [s for s in out if s is not None and rf_valid(s["a"])]

# ----- general models -----------------------------------------------------------------------------------------------
def gen_spec(a, init, targets, t="mdp", **kw):
    s = dict(a=a, rf=False, t=t, L={"init": [init], "target": list(targets)}, AL={}, R=None); s.update(kw)
    return s

@functools.lru_cache(None)
def _gen_enum(n, kinds, maxact, maxtotal):
    D = dists(range(n), kinds); per = []
    for k in range(1, maxact + 1): per += [list(c) for c in itertools.combinations(D, k)]
    return [list(a) for a in itertools.product(per, repeat=n) if not maxtotal or sum(map(len, a)) <= maxtotal]

def gen_structures(n, kinds="dh", maxact=2, maxtotal=0): return _gen_enum(n, kinds, maxact, maxtotal)

def nonempty_subsets(xs):
    xs = list(xs)
    for k in range(1, len(xs) + 1): yield from itertools.combinations(xs, k)

def gen_enum(n, kinds="dh", maxact=2, maxtotal=0, inits=None, t="mdp"):
    for a in _gen_enum(n, kinds, maxact, maxtotal):
        for init in (range(n) if inits is None else inits):
            for T in nonempty_subsets(range(n)): yield gen_spec(a, init, T, t)

# ----- presentations ------------------------------------------------------------------------------------------------
def std(n): return dict(sp=list(range(n)), ro="std", aid="std", fmt="dok")

def presentations(n, rf=True, full=False):
    """numberings: all permutations of the (transient) states x row orders x action numberings x formats when full,
    otherwise a covering list in which every single choice occurs"""
    perms = [list(p) for p in itertools.permutations(range(n))] if n <= 3 else [list(range(n)), list(range(n))[::-1],
             list(range(1, n)) + [0], [(2 * i) % n if n % 2 else (i + n // 2) % n for i in range(n)]]
    ros, aids, fmts = ("std", "rev", "inter"), ("std", "gap", "rev", "uniq"), ("dok", "csr0", "array", "list", "csc", "dok0", "coo")
    if full:
        return [dict(sp=p, ro=r, aid=a, fmt=f) for p in perms for r in ros for a in aids for f in fmts]
    out = []
    m = max(len(perms), len(fmts))
    for i in range(m):
        out.append(dict(sp=perms[i % len(perms)], ro=ros[i % 3], aid=aids[i % 4], fmt=fmts[i % len(fmts)]))
    return out

def simple_presentations(n):
    """std, and reversed states + reversed rows + gapped actions"""
    r = list(range(n))[::-1]
    return [std(n), dict(sp=r, ro="rev", aid="gap", fmt="csr0"), dict(sp=list(range(1, n)) + [0] if n else [], ro="inter", aid="rev", fmt="array")]

class Built:
    """a spec in a presentation: numbers and matrices to hand to the real code"""
    def __init__(self, spec, pres=None, precision=None):
        n = len(spec["a"]); rf = spec["rf"]; self.spec = spec; self.n = n
        pres = pres or std(n); self.pres = pres; dt = spec["t"] == "dtmc"
        tail = 2 if rf else spec.get("tail", 0)         # absorbing states that stay last: goal, fail
        sp = pres["sp"]; self.N = N = n + tail
        self.S = {s: sp[s] for s in range(n)}
        for k in range(tail): self.S[n + k] = n + k
        acts = spec["a"] + [[dirac(n + k)] for k in range(tail)]
        def aid(s, i):
            k = len(acts[s])
            if dt or s >= n: return 0
            return {"std": i, "gap": 3 * i + 2, "rev": k - 1 - i, "uniq": 10 * self.S[s] + i}[pres["aid"]]
        rows = [(s, i) for s in sorted(range(n), key=lambda s: self.S[s]) for i in range(len(acts[s]))]
        if pres["ro"] == "rev": rows = rows[::-1]
        elif pres["ro"] == "inter": rows.sort(key=lambda r: (r[1], (self.S[r[0]] * 7 + 3) % (n + 1), self.S[r[0]]))
        elif pres["ro"] == "lastfirst": rows = rows[-1:] + rows[:-1]
        rows += [(n + k, 0) for k in range(tail)]
        self.rows = rows; self.acts = acts
        self.A = {(s, i): (self.S[s], aid(s, i)) for s, i in rows}
        self.ibsa = {self.A[r]: k for k, r in enumerate(rows)}
        self.row = {r: k for k, r in enumerate(rows)}
        self.C = len(rows)
        self.entries = {}
        for k, (s, i) in enumerate(rows):
            for t, p in acts[s][i]: self.entries[(k, self.S[t])] = float(fr(p))
        L = {l: {self.S[s] for s in ss} for l, ss in spec["L"].items()}
        if rf: L["rf_target"] = {n}; L["rf_fail"] = {n + 1}
        elif tail: L["rrf_target"] = {n}
        self.L = L
        self.AL = {l: {self.A[(s, i)] for s, i in ps} for l, ps in (spec.get("AL") or {}).items()}
        R = spec.get("R")
        self.R = None if R is None else [float(fr(R[s][i])) if s < len(R) else 0.0 for s, i in rows]
    def matrix(self, fmt=None):
        import numpy as np
        from scipy.sparse import dok_matrix, csr_matrix, coo_matrix
        fmt = fmt or self.pres["fmt"]; C, N = self.C, self.N
        if fmt in ("dok", "dok0"):
            m = dok_matrix((C, N))
            items = list(self.entries.items())
            if fmt == "dok0": items = items[::-1]
            for (i, j), p in items: m[i, j] = p
            if fmt == "dok0":           # entries that are explicitly stored as zero
                for i in range(C):
                    for j in range(N):
                        if (i, j) not in self.entries: dict.__setitem__(m, (i, j), 0.0) if isinstance(m, dict) else m._dict.__setitem__((i, j), 0.0); break
            return m
        if fmt in ("csr0", "csc", "coo"):
            r, c, v = [], [], []
            for (i, j), p in self.entries.items(): r.append(i); c.append(j); v.append(p)
            if fmt == "csr0":
                for i in range(C):
                    for j in range(N):
                        if (i, j) not in self.entries: r.append(i); c.append(j); v.append(0.0)
            m = coo_matrix((v, (r, c)), shape=(C, N))
            if fmt == "csr0" and all(float(np.float32(p)) == p for p in self.entries.values()): m = m.astype(np.float32)        # probabilities that other number types can hold are given in these
            if fmt == "csc" and self.whole(): m = m.astype(np.int8)
            return m.tocsr() if fmt == "csr0" else m.tocsc() if fmt == "csc" else m
        m = np.zeros((C, N))
        for (i, j), p in self.entries.items(): m[i, j] = p
        if self.whole(): m = m.astype(bool if fmt == "matrix" else int)
        return {"array": lambda: m, "list": lambda: m.tolist(), "matrix": lambda: np.asmatrix(m)}[fmt]()
    def whole(self): return all(p == 1.0 for p in self.entries.values())
    def model(self, fmt=None, **kw):
        from switss.model import MDP, DTMC
        L = {l: set(v) for l, v in self.L.items()}
        if self.R is not None: kw.setdefault("reward_vector", list(self.R))
        if self.spec["t"] == "dtmc":
            return DTMC(self.matrix(fmt), label_to_states=L, index_by_state_action=dict(self.ibsa), **kw)
        return MDP(self.matrix(fmt), dict(self.ibsa), {l: set(v) for l, v in self.AL.items()}, L, **kw)
    def rf(self, **kw):
        from switss.model import ReachabilityForm
        return ReachabilityForm(self.model(), "init", **kw)
    def rewrf(self, **kw):
        from switss.model import RewardReachabilityForm
        return RewardReachabilityForm(self.model(), "init", **kw)
    # concrete vectors <-> spec states
    def by_state(self, vec): return [float(vec[self.S[s]]) for s in range(self.n)]
    def by_sap(self, vec): return {r: float(vec[k]) for k, r in enumerate(self.rows) if r[0] < self.n}

def triples(sys):
    """(state, action, dest) -> p of a real model, nonzero entries"""
    out = {}
    for (i, j), p in sys.P.items():
        if p != 0:
            s, a = sys.index_by_state_action.inv[i]; out[(int(s), int(a), int(j))] = float(p)
    return out

def spec_triples(b):
    """the same for a Built"""
    out = {}
    for (s, i) in b.rows:
        cs, ca = b.A[(s, i)]
        for t, p in b.acts[s][i]:
            if fr(p): out[(cs, ca, b.S[t])] = float(fr(p))
    return out

# ----- reward models ------------------------------------------------------------------------------------------------
def rew_structures(n, kinds="dh", maxact=2, maxtotal=0):
    """reachability-form structures without fail and without end components: goal is reached almost surely"""
    D = dists(range(n + 1), kinds); per = []
    for k in range(1, maxact + 1): per += [list(c) for c in itertools.combinations(D, k)]
    out = []
    for a in itertools.product(per, repeat=n):
        a = list(a)
        if maxtotal and sum(map(len, a)) > maxtotal: continue
        if rf_valid(a) and (n < 3 or rf_canonical(a)) and ecfree(dict(a=a)): out.append(a)
    return out

def rewards_for(a, full):
    """all assignments of 0, 1, 5/2 to the rows when there are few, otherwise covering ones"""
    shape = [len(A) for A in a]; m = sum(shape); vals = ("0", "1", "5/2")
    if full: seqs = list(itertools.product(vals, repeat=m))
    else: seqs = [[vals[(i * j + k) % 3] for i in range(m)] for j, k in ((1, 1), (2, 0), (1, 2), (0, 1))]
    for q in seqs:
        it = iter(q); yield [[next(it) for _ in range(k)] for k in shape]

def nofail(spec):
    """the same structure with fail replaced by goal (for rewards)"""
    n = len(spec["a"])
    return [[merge([[n if t == n + 1 else t, p] for t, p in d]) for d in A] for A in spec["a"]]
