"""C18: save and load round trips."""
from common import *
import os, tempfile

ASSUMPTIONS = ["label names are PRISM identifiers or contain spaces, digits and punctuation other than quotes", "labels without states need not survive"]
CH = 30
NAMES = ["init", "target", "a", "x1", "label_2", "with space", "L=3", "deadlock", "b:1"]

def specs(tier):
    th = tier == "thorough"; out = []
    for n, kinds, ma, mt in [(1, "d", 1, 0), (2, "dhtN", 2, 0), (3, "dhN", 1, 0), (3, "dh", 2, 4), (4, "d", 1, 0)] + ([(2, "dhtN", 3, 0), (3, "dhtN", 2, 5), (4, "dh", 1, 0)] if th else []):
        if kinds and n == 2 and "N" in kinds: kinds = kinds.replace("N", "")
        for k, a in enumerate(M.gen_structures(n, kinds, ma, mt)):
            # label pattern number k: which names on which states
            L = {}
            for s in range(n):
                for j in range(len(NAMES)):
                    if ((k >> 1) * 7 + s * 5 + j * 3 + k) % 4 == 0: L.setdefault(NAMES[j], []).append(s)
            if k % 5 == 0: L["empty"] = []
            if k % 7 == 0: L = {}
            if k % 11 == 3: L.update({"l%d" % i: [i % n] for i in range(14)})
            out.append(dict(a=a, rf=False, t="dtmc" if all(len(A) == 1 for A in a) and k % 2 else "mdp", L=L, AL={}, R=None))
    odd = ["1/7", "6/7"], ["1/1000000", "999999/1000000"], ["12345678901/100000000000", "87654321099/100000000000"], ["1/3", "2/3"], ["1/1000000000000", "999999999999/1000000000000"], ["1/3000000000", "2999999999/3000000000"], ["1/70000000000000", "69999999999999/70000000000000"]
    for p, q in odd:
        for t in ("mdp", "dtmc"):
            out.append(dict(a=[[[[0, p], [1, q]]], [[[0, q], [1, p]]] + ([[[1, "1"]]] if t == "mdp" else [])], rf=False, t=t, L={"init": [0], "target": [1]}, AL={}, R=None))
    for m in (12, 25, 2500) + ((120, 20000) if th else ()):
        for t in ("mdp", "dtmc"):
            a = [[M.merge([[(i + 1) % m, "1/3"], [(i * i) % m, "1/3"], [0, "1/3"]])] + ([[[m - 1 - i, "1"]]] if t == "mdp" and i % 3 else []) for i in range(m)]
            out.append(dict(a=a, rf=False, t=t, L={"init": [0], **{"l%d" % i: [j for j in range(m) if j % (i + 1) == i or m < 100 and (i + j) % 7 != 3] for i in range(60 if m < 100 else 15)}}, AL={}, R=None))
    return out

def rfs(tier):
    th = tier == "thorough"
    return rf_cases(M.rf_enum(1, "dhtn"), presall=True) + rf_cases(M.rf_enum(2, "dh", 2, 0 if th else 3)) + rf_cases(M.rf_enum(2, "dhtn", 2, 3) if th else M.rf_enum(2, "n", 2, 3) + M.rf_dtmcs(2, "dhtn")) + rf_cases(M.rf_dtmcs(3, "dh")) + rf_cases([s for s in M.families(tier) if len(s["a"]) < 20], simple=True)

def cases(tier):
    n = len(specs(tier)); out = [dict(kind="gen", lo=i, hi=min(i + CH, n), tier=tier) for i in range(0, n, CH)]
    return out + [dict(c, kind="rf") for c in rfs(tier)]

def bounds(tier):
    return "general models: 1-2 states (<=%d actions each), 3 states (one action, or <=%d in all), 4 states (one action) with rotating label patterns (none, several per state, empty, >10 and about 50 labels at a state, names with punctuation), probabilities with many digits (down to 1e-14), 12-%d states; reachability forms with <=2 states, 3-state DTMCs, families and their subsystems; numberings, row orders, action numbers and matrix formats in turn; two round trips each" % ((3, 5, 20000) if tier == "thorough" else (2, 4, 2500))

_sp = {}
def content(m):
    return ({(int(s), int(a)) for (s, a) in m.index_by_state_action}, {str(l): frozenset(map(int, v)) for l, v in m.states_by_label.items() if v}, m.N)

def same(x, y, where, actions=True):
    cx, cy = content(x), content(y)
    if cx[2] != cy[2]: return where + "%d states instead of %d" % (cy[2], cx[2])
    if actions and cx[0] != cy[0]: return where + "actions %s instead of %s" % (sorted(cy[0]), sorted(cx[0]))
    if cx[1] != cy[1]: return where + "labelled states %s instead of %s" % (cy[1], cx[1])
    tx, ty = M.triples(x), M.triples(y)
    if set(tx) != set(ty): return where + "transitions %s instead of %s" % (sorted(ty), sorted(tx))
    for k in tx:
        if abs(tx[k] - ty[k]) > 1e-15 * tx[k]: return where + "probability of %s is %r instead of %r" % (k, ty[k], tx[k])
    return None

def round_trips(m, d, ctx, where):
    x = m
    for r in (1, 2):
        p = os.path.join(d, "m" if r == 1 else "sub.model"); before = snap_model(x)
        if r == 1:
            for e in (".tra", ".lab"): open(p + e, "w").write("1 1 1\n9 9 9\n" * 50)            # a longer file of that name exists already
        tra, lab = x.save(p); ctx.op()
        if snap_model(x) != before: return where + "saving changed the model", None
        if not (os.path.exists(tra) and os.path.exists(lab)): return where + "files are missing", None
        y = type(m).from_file(lab, tra); ctx.op()
        e = same(m, y, where + "round trip %d: " % r)
        if e: return e, None
        x = y
    return None, x

def check(case, ctx):
    with tempfile.TemporaryDirectory() as d:
        if case["kind"] == "gen":
            if case["tier"] not in _sp: _sp[case["tier"]] = specs(case["tier"])
            for k in range(case["lo"], case["hi"]):
                s = _sp[case["tier"]][k]; ps = pres_for(len(s["a"])) if len(s["a"]) < 6 else M.simple_presentations(len(s["a"])); b = M.Built(s, ps[k % len(ps)])
                m = b.model(); ctx.trace(); ctx.state(str(s))
                if M.triples(m) != M.spec_triples(b): return ctx.fail("model %s is not the given one" % s)
                e, _ = round_trips(m, d, ctx, "model %s, presentation %s: " % (s, b.pres)); ctx.outcome(s["t"], len(s["L"]), m.N)
                if e: return ctx.fail(e)
            return
        from switss.model import ReachabilityForm
        from switss.problem import Subsystem
        spec = dict(case["spec"]); n = len(spec["a"]); spec["L"] = {"init": [0], "odd": list(range(1, n, 2)), **{"s%d" % s: [s] for s in range(n)}}; b = M.Built(spec, case["pres"]); rf = b.rf(); ctx.trace(); ctx.state(str(spec["a"]))
        e, m = round_trips(rf.system, d, ctx, "reachability form: ")
        if e: return ctx.fail(e)
        lo, hi = exact(spec, "min"), exact(spec, "max")
        def use(m, what, lo, hi, name):
            f = ReachabilityForm(m, "init"); ctx.op(2)
            a, z = f.pr_min(), f.pr_max()
            for s, x in name.items():
                if not close(a[x], lo[s]) or not close(z[x], hi[s]): return what + "probabilities of state %d are %s, %s instead of %s, %s" % (x, a[x], z[x], float(lo[s]), float(hi[s]))
        e = use(m, "loaded form: ", lo, hi, {s: b.S[s] for s in range(n)})
        if e: return ctx.fail(e)
        # subsystems
        k = 0
        for S in M.nonempty_subsets(range(n)):
            if 0 not in S or len(S) == n: continue
            k += 1
            if n > 4 and k % 7 or k > 40: continue
            acts = [[set(M.succs(d)) for d in spec["a"][s]] for s in range(n)]
            fw = {s: {t for A in acts[s] for t in A if t in S or t == n} for s in S}; bk = {}
            for s in fw:
                for t in fw[s]: bk.setdefault(t, set()).add(s)
            if not (ref.reach(fw, [0]) >= set(S) | {n} and ref.reach(bk, [n]) >= set(S)): continue
            cert = np.array([1.0 if s in S else 0.0 for s in sorted(range(n), key=lambda s: b.S[s])])
            sub = Subsystem(rf, cert, "min").subsys.system
            e, m = round_trips(sub, d, ctx, "subsystem %s: " % (S,))
            if e: return ctx.fail(e)
            name = {s: next(iter(m.states_by_label["s%d" % s])) for s in S}
            rr = real_ref(sub, {sub.N - 2}); lo2, hi2 = rr.prmin(), rr.prmax()
            e = use(m, "loaded subsystem %s: " % (S,), {s: lo2[x] for s, x in name.items()}, {s: hi2[x] for s, x in name.items()}, name)
            if e: return ctx.fail(e)
            ctx.outcome("subsystem", len(S))
