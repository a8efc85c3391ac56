"""C26: translation of (duck-typed) stormpy models."""
from common import *

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded stormpy models (structure, state labels, choice labels) on the real translation, compared with the model they denote and, for choice models, with exact reachability probabilities"
ASSUMPTIONS = ["stormpy is replaced by objects with its interface (nr_states, nr_choices, states, actions, transitions, labeling, choice_labeling, get_choice_index); that stormpy behaves like them is not decided"]

class Tr:
    def __init__(self, c, v): self.column, self.v = c, v
    def value(self): return self.v
class Act:
    def __init__(self, i, d): self.id = i; self.transitions = [Tr(c, v) for c, v in sorted(d.items())]
class St:
    def __init__(self, i, acts, lab): self.id = i; self.actions = [Act(k, d) for k, d in enumerate(acts)]; self.labels = set(lab)
class SL:
    def __init__(self, lab): self.lab = lab
    def get_labels_of_state(self, s): return set(self.lab[s])
    def get_labels(self): return set().union(*self.lab)
class CL:
    def __init__(self, lab): self.lab = lab
    def get_labels_of_choice(self, c): return set(self.lab[c])
    def get_labels(self): return set().union(*self.lab)
class Storm:
    def __init__(self, a, slab, clab):
        self.nr_states = len(a); self.nr_choices = sum(map(len, a)); self.nr_transitions = sum(len(d) for A in a for d in A)
        self.off = [0]
        for A in a: self.off.append(self.off[-1] + len(A))
        self.states = [St(i, A, slab[i]) for i, A in enumerate(a)]; self.labeling = SL(slab); self.choice_labeling = CL(clab); self.initial_states = [0]
    def get_choice_index(self, s, k): return self.off[s] + k

def structs(tier):
    th = tier == "thorough"
    out = [(a, "mdp") for a in M.gen_structures(1, "d", 1)] + [(a, "mdp") for a in M.gen_structures(2, "dhte", 2)] + [(a, "dtmc") for a in M.gen_structures(2, "dht", 1)]
    out += [(a, "dtmc") for a in M.gen_structures(3, "dhn" if th else "dh", 1)] + [(a, "mdp") for a in M.gen_structures(3, "dh" if th else "d", 2, 4)] + [(a, "mdp") for a in M.gen_structures(2, "dh", 3)]
    if th: out += [(a, "mdp") for a in M.gen_structures(3, "dh", 2, 5)]
    for s in M.families("quick") + M.large(2, 9):
        n = len(s["a"]); out.append((s["a"] + [[M.dirac(n)], [M.dirac(n + 1)]], s["t"]))
    return out
CH = 25
def cases(tier):
    n = len(structs(tier)); return [dict(lo=i, hi=min(n, i + CH), tier=tier) for i in range(0, n, CH)]

def bounds(tier):
    return "MDPs with 2 states (<=2 actions over Dirac/half/third/1e-9-and-the-rest rows, 3 actions over Dirac/half rows), DTMCs with <=3 states, MDPs with 3 states and <=%s actions, structured families, block structures with 15 and 57 states; for <=2 states and <=3 choices all label relations with 2 state labels and 2 choice labels (each with one of the other in turn), otherwise 5 label patterns (also names shared by states and choices)" % ("5" if tier == "thorough" else "4 Dirac")

def patterns(n, C, k, full):
    """(labels of states, labels of choices)"""
    def rel(bits, m, names): return [{x for j, x in enumerate(names) if bits >> (i * len(names) + j) & 1} for i in range(m)]
    out = []
    if full:
        sb, cb = 2 ** (2 * n), 2 ** (2 * C); m = max(sb, cb)
        for q in range(m): out.append((rel((q * 7 + k) % sb if q >= sb else q, n, ("init", "x")), rel((q * 5 + 3 + k) % cb if m > cb else q, C, ("go", "go b"))))
        out.append((rel(k % sb, n, ("x", "y")), rel(k * 3 % cb, C, ("x", "y"))))
        return out
    for q in range(5):
        nm, cn = ("init", "target", "l 1"), (("go", "stay", "x") if q < 4 else ("init", "go", "l 1"))
        out.append(([{x for j, x in enumerate(nm) if (i * 5 + j * 3 + q + k) % 3 == 0} for i in range(n)], [{x for j, x in enumerate(cn) if (i * 7 + j * 2 + q * 3 + k) % 4 < 2} if q else set() for i in range(C)]))
    return out

def inverse(lab, skip=()):
    out = {}
    for i, x in enumerate(lab):
        for l in x: out.setdefault(l, set()).add(i)
    return out

def check(case, ctx):
    from switss.model import MDP, DTMC
    for k, (a0, t) in enumerate(structs(case["tier"])):
        if not case["lo"] <= k < case["hi"]: continue
        a = [[{u: float(F(p)) for u, p in d} for d in A] for A in a0]; n = len(a); C = sum(map(len, a))
        tr = {(s, i, u): p for s in range(n) for i, d in enumerate(a[s]) for u, p in d.items()}; pairs = [(s, i) for s in range(n) for i in range(len(a[s]))]
        for v, (sl, cl) in enumerate(patterns(n, C, k, n <= 2 and C <= 3)):
            sm = Storm(a, sl, cl); ctx.state(str(a), t, str(sl), str(cl)); what = "model %s with state labels %s and choice labels %s: " % (a0, sl, cl)
            for cls in ([MDP, DTMC] if t == "dtmc" else [MDP]):
                m = cls.from_stormpy(sm); ctx.op(); ctx.trace(); ctx.outcome(cls.__name__, n, C)
                w = what + cls.__name__ + ".from_stormpy: "
                if type(m) is not cls or m.N != n or m.C != C: return ctx.fail(w + "%s with %d states and %d rows" % (type(m), m.N, m.C))
                if M.triples(m) != tr: return ctx.fail(w + "transitions %s" % M.triples(m))
                if set(m.index_by_state_action) != set(pairs): return ctx.fail(w + "actions %s" % dict(m.index_by_state_action))
                if {l: set(x) for l, x in m.states_by_label.items() if x} != inverse(sl): return ctx.fail(w + "labels %s" % dict(m.states_by_label.items()))
                if cls is MDP:
                    want = {}
                    for c, x in enumerate(cl):
                        for l in x: want.setdefault(l, set()).add(pairs[c])
                    if {l: set(x) for l, x in m.actions_by_label.items() if x} != want: return ctx.fail(w + "action labels %s" % dict(m.actions_by_label.items()))
            m = MDP.from_stormpy(sm, choice_model=True); ctx.op(); ctx.trace(); w = what + "choice model: "
            if m.N != n + C: return ctx.fail(w + "%d states" % m.N)
            got = M.triples(m); acts = {}
            for (s, i, u), p in got.items(): acts.setdefault(s, {}).setdefault(i, {})[u] = p
            of = {}                                       # choice -> its state
            for s in range(n):
                if set(acts.get(s, {})) != set(range(len(a[s]))): return ctx.fail(w + "actions %s of state %d" % (acts.get(s), s))
                for i in range(len(a[s])):
                    d = acts[s][i]
                    if len(d) != 1 or list(d.values()) != [1.0]: return ctx.fail(w + "action %s moves to %s" % ((s, i), d))
                    of[(s, i)] = next(iter(d))
            if sorted(of.values()) != list(range(n, n + C)): return ctx.fail(w + "states of the choices are %s" % of)
            for (s, i), x in of.items():
                if len(acts.get(x, {})) != 1 or next(iter(acts[x].values())) != a[s][i]: return ctx.fail(w + "the state of choice %s behaves like %s" % ((s, i), acts.get(x)))
            if m.C != 2 * C: return ctx.fail(w + "%d rows" % m.C)
            lab = [set(m.labels_by_state[x]) for x in range(m.N)]
            for s in range(n):
                if lab[s] - {"state"} != sl[s]: return ctx.fail(w + "state %d has labels %s" % (s, lab[s]))
            for c, r in enumerate(pairs):
                if lab[of[r]] - {"choice"} != cl[c]: return ctx.fail(w + "the state of choice %s has labels %s" % (r, lab[of[r]]))
                if "state" in lab[of[r]]: return ctx.fail(w + "a choice is marked as state")
            if any(("choice" in lab[x]) != (x >= n) or ("state" in lab[x]) != (x < n) for x in range(m.N)): return ctx.fail(w + "states and choices are not told apart by their labels")
            if v == k % 5 and n <= 3:
                T = {n - 1}; r1 = ref.Ref([[{s: F(1)}] if s in T else [{u: F(p) for u, p in d.items()} for d in a[s]] for s in range(n)], T); r2 = real_ref(m, T); ctx.op()
                for nm, x, y in (("min", r1.prmin(), r2.prmin()), ("max", r1.prmax(), r2.prmax())):
                    if any(abs(x[s] - y[s]) > F(1, 10**12) for s in range(n)): return ctx.fail(w + "Pr^%s differs" % nm)
