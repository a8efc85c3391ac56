"""C17: InvertibleDict and the label maps of models under every operation sequence up to a depth."""
from common import *

ASSUMPTIONS = ["a look-up that raises KeyError counts as the empty set when the dictionary has no default"]
KEYS, VALS = ("a", "b"), (0, 1)
OPS = [(o, k, v) for o in ("add", "rem", "iadd", "irem") for k in KEYS for v in VALS] + [("inv", None, None), ("get", "a", None), ("iget", None, 0), ("invinv", None, None)]
INITS = [{}, {"a": [0]}, {"a": [0, 1], "b": [1]}, {"a": [], "b": [0]}]
MOPS = [("label", s, l) for s in (0, 1) for l in ("x", "init")] + [("sadd", 1, "x"), ("ladd", 0, "y"), ("srem", 0, "x"), ("lrem", 1, "init"), ("gets", 0, None), ("getl", None, "x"), ("aadd", (0, 0), "p"), ("ainv", None, None), ("other", 0, "x"), ("touch", None, None), ("clone", None, None)]

def cases(tier):
    D = 4 if tier == "quick" else 5
    out = [dict(kind="dict", init=i, default=d, pre=[p, q], depth=D) for i in range(len(INITS)) for d in (0, 1) for p in range(len(OPS)) for q in range(len(OPS))]
    DM = 3 if tier == "quick" else 4
    out += [dict(kind="model", t=t, pre=p, depth=DM) for t in ("mdp", "dtmc") for p in range(len(MOPS))]
    out += [dict(kind="grow", t=t, first=f, n=5 if tier == "quick" else 6) for t in ("mdp", "dtmc") for f in range(5 if tier == "quick" else 6)]
    out += [dict(kind="wide", K=k, V=v, default=d, f=f) for k, v in ((1, 12), (12, 1), (12, 12), (1, 300), (300, 1), (45, 9)) for d in (0, 1) for f in range(3)]
    return out

def bounds(tier):
    return "4 initial dictionaries x default or not x all sequences of <=%d of %d operations (add, remove, look-up on either direction) over 2 keys and 2 values, the whole relation compared in both directions after each; models: all sequences of <=%d of %d label operations; labels put on %d states in every order and removed again; relations with up to 300 keys, 300 values per key and 300 keys per value, given at once or pair by pair, every pair removed and added again in turn through either direction" % (
        (4, len(OPS), 3, len(MOPS), 5) if tier == "quick" else (5, len(OPS), 4, len(MOPS), 6))

def get(d, k):
    try: return set(d[k])
    except KeyError: return set()

def listed(*ds):
    return [(sorted(map(str, d.keys())), sorted(map(str, d.items()))) for d in ds]

def looked(d, keys):
    """direct look-ups must not change what is listed"""
    k0 = listed(d); a = [k in d for k in keys]
    for k in keys: get(d, k)
    if [k in d for k in keys] != a: return "a look-up changed which keys are contained"
    if listed(d) != k0: return "a look-up changed the listed keys or items from %s to %s" % (k0, listed(d))

def compare(d, inv, R, U, V):
    """d, inv: the two directions (inv may be None: not looked at yet)"""
    for u in U:
        w = {v for x, v in R if x == u}
        if get(d, u) != w: return "[%r] is %s, expected %s" % (u, get(d, u), w)
    items = {(k, v) for k, vs in d.items() for v in vs}
    if items != R: return "items are %s, expected %s" % (sorted(map(str, items)), sorted(map(str, R)))
    if not {k for k, v in R} <= set(d.keys()): return "keys are %s" % sorted(map(str, d.keys()))
    for k, v in R:
        if k not in d: return "%r is not contained" % (k,)
    if inv is not None:
        for v in V:
            w = {u for u, x in R if x == v}
            if get(inv, v) != w: return "inverse of %r is %s, expected %s" % (v, get(inv, v), w)
        if {(k, v) for v, ks in inv.items() for k in ks} != R: return "items of the inverse differ"
    return None

class DictRun:
    def __init__(self, init, default):
        from switss.utils import InvertibleDict
        self.src = {k: set(v) for k, v in init.items()}; self.copy = {k: set(v) for k, v in self.src.items()}
        self.d = InvertibleDict(self.src, is_default=True) if default else (InvertibleDict(self.src) if len(init) % 2 else InvertibleDict(self.src, is_default=False))
        self.R = {(k, v) for k, vs in init.items() for v in vs}; self.inv = None
    def step(self, op):
        o, k, v = op; err = None; before = set(self.R)
        try:
            if o == "add": self.d.add(k, v); self.R.add((k, v))
            elif o == "rem": self.d.remove(k, v)
            elif o == "iadd": self.d.inv.add(v, k); self.R.add((k, v)); self.inv = self.d.inv
            elif o == "irem": self.inv = self.d.inv; self.inv.remove(v, k)
            elif o == "inv": self.inv = self.d.inv
            elif o == "get":
                e = looked(self.d, KEYS + ("c",))
                if e: return e
            elif o == "iget":
                self.inv = self.d.inv; e = looked(self.inv, VALS + (7,)) or looked(self.d, KEYS)
                if e: return e
            elif o == "invinv":
                self.inv = self.d.inv
                e = compare(self.d.inv.inv, None, self.R, KEYS, VALS)
                if e: return "inverse of the inverse: " + e
        except Exception as ex:
            err = ex
        if o in ("rem", "irem"):
            if (k, v) in before:
                if err: return "removing a present pair raised %r" % err
                self.R.discard((k, v))
            elif not err: return "removing an absent pair was not refused"
        elif err: return "%s raised %r" % (o, err)
        e = compare(self.d, self.inv, self.R, KEYS, VALS)
        if e: return e
        if self.src != self.copy: return "the dictionary of the caller was changed to %s" % self.src

class ModelRun:
    def __init__(self, t):
        from switss.model import MDP, DTMC
        self.L = {"init": {0}, "t": {1}}; self.AL = {"p": {(1, 0)}}
        P = [[0.5, 0.5], [0, 1]]; ibsa = {(0, 0): 0, (1, 0): 1}
        self.mk = (lambda: DTMC(P, self.L)) if t == "dtmc" else (lambda: MDP(P, ibsa, self.AL, self.L))
        self.t = t; self.m = self.mk(); self.o = self.mk(); self.P = P; self.ibsa = ibsa
        self.R = {("init", 0), ("t", 1)}; self.RO = set(self.R); self.RA = {("p", (1, 0))} if t == "mdp" else set(); self.RAO = set(self.RA); self.touched = False
    def step(self, op):
        from switss.model import MDP, DTMC
        o, s, l = op; m = self.m; err = None; before = set(self.R)
        try:
            if o == "label": m.add_label(s, l); self.R.add((l, s))
            elif o == "sadd": m.states_by_label.add(l, s); self.R.add((l, s))
            elif o == "ladd": m.labels_by_state.add(s, l); self.R.add((l, s)); self.touched = True
            elif o == "srem": m.states_by_label.remove(l, s)
            elif o == "lrem": self.touched = True; m.labels_by_state.remove(s, l)
            elif o == "gets":
                self.touched = True; e = looked(m.labels_by_state, (s, 7))
                if e: return e
            elif o == "getl":
                e = looked(m.states_by_label, (l, "never"))
                if e: return e
            elif o == "aadd": m.actions_by_label.add(l, s); self.RA.add((l, s))
            elif o == "ainv": get(m.labels_by_action, (0, 0))
            elif o == "other": self.o.add_label(s, l); self.RO.add((l, s))
            elif o == "clone":          # the other model is built anew from the label maps of the first one
                self.o = DTMC(self.P, m.states_by_label) if self.t == "dtmc" else MDP(self.P, self.ibsa, m.actions_by_label, m.states_by_label)
                self.RO = set(self.R); self.RAO = set(self.RA) if self.t == "mdp" else set()
            elif o == "touch": m.labels_by_state; self.touched = True
        except Exception as ex: err = ex
        if o in ("srem", "lrem"):
            if (l, s) in before:
                if err: return "removing a present label raised %r" % err
                self.R.discard((l, s))
            elif not err: return "removing an absent label was not refused"
        elif err: return "%s raised %r" % (o, err)
        e = compare(m.states_by_label, m.labels_by_state if self.touched else None, self.R, ("x", "y", "init", "t"), (0, 1))
        if e: return "labels of the model: " + e
        e = compare(m.actions_by_label, m.labels_by_action if o == "ainv" else None, self.RA, ("p", "q"), ((0, 0), (1, 0)))
        if e: return "action labels of the model: " + e
        e = compare(self.o.states_by_label, None, self.RO, ("x", "y", "init", "t"), (0, 1)) or compare(self.o.actions_by_label, None, self.RAO, ("p", "q"), ((0, 0), (1, 0)))
        if e: return "labels of another model built from the same label maps: " + e
        if self.L != {"init": {0}, "t": {1}} or self.AL != {"p": {(1, 0)}}: return "the dictionaries of the caller were changed to %s, %s" % (self.L, self.AL)

def grow(case, ctx):
    """labels put on all states in every order, by add_label, through either direction, and removed again"""
    from switss.model import MDP, DTMC
    n = case["n"]; P = [[float(j == (i + 1) % n) for j in range(n)] for i in range(n)]
    for rest in itertools.permutations([s for s in range(n) if s != case["first"]]):
        order = (case["first"],) + rest; L = {"init": {0}, "x": set()}
        m = DTMC(P, L) if case["t"] == "dtmc" else MDP(P, {(i, 0): i for i in range(n)}, {}, L); R = {("init", 0)}; ctx.trace(); ctx.state("grow", case["t"], order)
        for i, s in enumerate(order + order[::2]):
            if i < n: 
                m.add_label(s, "x"); R.add(("x", s)); ctx.op()
                if i % 2: m.states_by_label.add("y", s); R.add(("y", s))
                else: m.labels_by_state.add(s, "z"); R.add(("z", s))
            else: m.states_by_label.remove("x", s); R.discard(("x", s)); ctx.op()
            for l in ("never", "x", "y", "z", "init"):
                try: got = set(m.states_by_label[l])
                except Exception as e: return ctx.fail("order %s, step %d: states of label %r: %s: %s" % (order, i, l, type(e).__name__, e))
                if got != {u for k, u in R if k == l}: return ctx.fail("order %s, step %d: states of label %r are %s" % (order, i, l, got))
            for u in range(n):
                if set(m.labels_by_state[u]) != {k for k, v in R if v == u}: return ctx.fail("order %s, step %d: labels of state %d are %s" % (order, i, u, set(m.labels_by_state[u])))
            e = compare(m.states_by_label, m.labels_by_state, R, ("x", "y", "z", "init", "never"), range(n))
            if e: return ctx.fail("order %s, step %d: %s" % (order, i, e))
        if set(m.actions_by_label["never"]) or set(m.labels_by_action[(0, 0)]): return ctx.fail("action labels out of nowhere")
        if L != {"init": {0}, "x": set()}: return ctx.fail("the dictionary of the caller was changed")
    ctx.outcome("grow", case["t"], n)

def wide(case, ctx):
    """larger relations: each pair is removed and added again, through either direction; the whole relation is compared every few steps"""
    from switss.utils import InvertibleDict
    K = ["k%d" % i for i in range(case["K"])]; V = list(range(case["V"])); R = {(k, v) for i, k in enumerate(K) for j, v in enumerate(V) if min(len(K), len(V)) == 1 or (i * 5 + j * 3) % 7 < 4}
    src = {k: {v for x, v in R if x == k} for k in K}; keep = {k: set(v) for k, v in src.items()}; what = "%d keys, %d values: " % (len(K), len(V))
    d = InvertibleDict(src if case["f"] else {}, is_default=bool(case["default"]))
    if not case["f"]:
        for k, v in sorted(R): d.add(k, v)
    ctx.trace(); pairs = sorted(R); step = max(1, len(pairs) // 25)
    e = compare(d, d.inv if case["f"] == 2 else None, R, K, V)
    if e: return ctx.fail(what + e)
    for n, (k, v) in enumerate(pairs):
        (d.remove(k, v) if n % 2 else d.inv.remove(v, k)); R.discard((k, v)); ctx.op(2); ctx.state(len(K), len(V), n)
        e = compare(d, d.inv, R, K, V) if n % step == 0 else None
        if e: return ctx.fail(what + "without %s: %s" % ((k, v), e))
        (d.add(k, v) if n % 3 else d.inv.add(v, k)); R.add((k, v))
        e = compare(d, d.inv, R, K, V) if n % step == 0 else None
        if e: return ctx.fail(what + "with %s again: %s" % ((k, v), e))
    e = compare(d.inv.inv, d.inv, R, K, V)
    if e: return ctx.fail(what + e)
    if src != keep: return ctx.fail(what + "the dictionary of the caller was changed")
    ctx.outcome("wide", len(K), len(V))

def check(case, ctx):
    if case["kind"] == "wide": return wide(case, ctx)
    if case["kind"] == "grow": return grow(case, ctx)
    if case["kind"] == "dict":
        ops = OPS; mk = lambda: DictRun(INITS[case["init"]], case["default"]); pre = case["pre"]
    else:
        ops = MOPS; mk = lambda: ModelRun(case["t"]); pre = [case["pre"]]
    for rest in itertools.product(range(len(ops)), repeat=case["depth"] - len(pre)):
        r = mk(); ctx.trace()
        for n, i in enumerate(list(pre) + list(rest)):
            e = r.step(ops[i]); ctx.op()
            if e: return ctx.fail("after %s: %s" % ([ops[j] for j in (list(pre) + list(rest))[:n + 1]], e))
        ctx.state(case["kind"], case.get("init"), case.get("default"), tuple(sorted(map(str, r.R))), r.__dict__.get("inv") is None)
    ctx.outcome(case["kind"], len(r.R))
