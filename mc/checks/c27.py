"""C27: digraph renderings of models, reachability forms and subsystems."""
from common import *
import re, collections

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded models, supports, certificate forms and rendering options; the emitted DOT text is parsed by an independent reader and compared with the graph that the model denotes"
ASSUMPTIONS = ["the DOT text is the observation (it is not laid out); nodes of states are named by the state number, nodes of actions by state and action number"]

TOK = re.compile(r'"((?:\\"|[^"])*)"|(->)|([\[\]{}=;,])|([^\s\[\]{}=;,"]+)', re.S)
def parse(src):
    """nodes [(name, attrs)], edges [(from, to, attrs)] of a DOT text"""
    toks = []
    for m in TOK.finditer(src):
        if m.group(1) is not None: toks.append(("id", m.group(1).replace('\\"', '"')))
        elif m.group(4) is not None: toks.append(("id", m.group(4)))
        else: toks.append(("p", m.group(2) or m.group(3)))
    i = toks.index(("p", "{")) + 1; nodes, edges = [], []
    while toks[i] != ("p", "}"):
        if toks[i] == ("p", ";"): i += 1; continue
        a = toks[i][1]; i += 1; b = None; at = {}
        if toks[i] == ("p", "->"): b = toks[i + 1][1]; i += 2
        if toks[i] == ("p", "["):
            i += 1
            while toks[i] != ("p", "]"):
                if toks[i] in (("p", ","), ("p", ";")): i += 1; continue
                at[toks[i][1]] = toks[i + 2][1]; i += 3
            i += 1
        if b is not None: edges.append((a, b, at))
        elif a not in ("graph", "node", "edge"): nodes.append((a, at))
    return nodes, edges

def lab(x): return "".join("{%s}" % l for l in sorted(x))

def maps(tag, mdp, keys=True):
    """maps that show all their arguments"""
    def sm(s, labels): return {"label": "%sS%d%s" % (tag, s, lab(labels)), "color": "c%d" % s} if keys else {"color": "c%d" % s, "xlabel": "%sS%d%s" % (tag, s, lab(labels))}
    def am(s, a, labels): return {"node": {"label": "%sA%d.%d%s" % (tag, s, a, lab(labels)), "shape": "oval"}, "edge": {"label": "%se%d.%d" % (tag, s, a)}}
    def tm(s, a, d, p): return {"label": "%sT%d.%d.%d|%r" % (tag, s, a, d, float(p))}
    def td(s, d, p): return {"label": "%sT%d.0.%d|%r" % (tag, s, d, float(p))}
    return (sm, tm, am) if mdp else (sm, td, None)

def shared(mdp):
    """maps that hand out the same dictionaries again and again"""
    S, A, T = {"label": "S", "color": "c"}, {"node": {"label": "A", "shape": "oval"}, "edge": {"label": "e"}}, {"label": "t"}
    return ((lambda s, labels: S), (lambda *x: T), (lambda s, a, labels: A) if mdp else None), lambda: (S, A, T) == ({"label": "S", "color": "c"}, {"node": {"label": "A", "shape": "oval"}, "edge": {"label": "e"}}, {"label": "t"})

def graph_problem(dg, sys, m, mdp, state=lambda s: s, act=lambda s, a: (s, a)):
    """compares a digraph with the one that sys denotes under the maps m; state, act: renaming of the arguments of the maps"""
    nodes, edges = parse(dg.source); sm, tm, am = m
    want = {}; we = collections.Counter()
    f = lambda d: tuple(sorted((k, str(v)) for k, v in d.items()))
    for s in range(sys.N): want[str(s)] = f(sm(state(s), sys.labels_by_state[s]))
    for (s, a) in sys.index_by_state_action:
        if mdp:
            x = am(*act(s, a), sys.labels_by_action[(s, a)]); want["%d-%d" % (s, a)] = f(x["node"]); we[(str(s), "%d-%d" % (s, a), f(x["edge"]))] += 1
    for (s, a, t), p in M.triples(sys).items():
        if mdp: we[("%d-%d" % (s, a), str(t), f(tm(*act(s, a), state(t), p)))] += 1
        else: we[(str(s), str(t), f(tm(state(s), state(t), p)))] += 1
    got = collections.Counter(n for n, _ in nodes)
    if any(c > 1 for c in got.values()): return "nodes occur several times: %s" % [n for n in got if got[n] > 1]
    g = {n: f(x) for n, x in nodes}
    if set(g) != set(want): return "nodes %s instead of %s" % (sorted(g), sorted(want))
    for n in g:
        if g[n] != want[n]: return "node %s has the attributes %s instead of %s" % (n, g[n], want[n])
    ge = collections.Counter((a, b, f(x)) for a, b, x in edges)
    if ge != we: return "edges: missing %s, surplus %s" % (sorted((we - ge).elements())[:4], sorted((ge - we).elements())[:4])

def cases(tier):
    th = tier == "thorough"; out = []
    def add(structs, t, step=1):
        for k, a in enumerate(structs[::step]):
            ps = pres_for(len(a), False); out.append(dict(kind="gen", a=a, t=t, pres=ps[k % len(ps)], k=k))
    add(M.gen_structures(1, "d", 1), "mdp"); add(M.gen_structures(2, "dht", 2), "mdp"); add(M.gen_structures(2, "dht", 1), "dtmc"); add(M.gen_structures(3, "dhn", 1), "dtmc"); add(M.gen_structures(3, "dh" if th else "d", 2, 4), "mdp")
    for s in M.large(2, 9): add([s["a"] + [[M.dirac(len(s["a"]))], [M.dirac(len(s["a"]) + 1)]]], s["t"])
    specs = rf_cases(M.rf_enum(1, "dhtn"), presall=True) + rf_cases(M.rf_enum(2, "dh", 2, 0 if th else 3)) + rf_cases(M.rf_dtmcs(2, "dht"), presall=True) + rf_cases(M.rf_dtmcs(3, "dh" if th else "h")) + rf_cases([s for s in M.families(tier) if len(s["a"]) <= (12 if th else 7)] + M.large(2, 9), simple=True)
    return out + [dict(kind="rf", k=i, **c) for i, c in enumerate(specs)]

def bounds(tier):
    return "MDPs with 2 states (<=2 actions), DTMCs with <=3 states, MDPs with 3 states and <=4 %sactions with rotating labels, in all matrix formats; maps given as arguments, as configuration of the model, and the default ones (for subsystems also maps that return the same dictionary for everything); the reduction of each (two initial states, one or two targets; own and default styles of goal and fail); reachability forms with <=2 states (3-state DTMCs, families): subsystems for every support (<=2^5 of them), both forms, with and without weights; block structures with 13 and 55 states" % ("" if tier == "thorough" else "Dirac ")

def model(b, cfg=None):
    """the model with a visualization configuration"""
    return b.model(vis_config=cfg) if cfg is not None else b.model()

def check(case, ctx):
    from switss.utils import VisualizationConfig, DTMCVisualizationConfig
    if case["kind"] == "rf": return check_rf(case, ctx)
    from switss.model import ReachabilityForm
    a = case["a"]; n = len(a); k = case["k"]; mdp = case["t"] == "mdp"
    L = {"init": [k % n], "target": [(k // 2 + 1) % n] + ([(k // 3) % n] if k % 5 == 0 else []), "odd": [s for s in range(n) if s % 2], "x y": [s for s in range(n) if (k >> s) & 1]}
    AL = {"go": [[s, i] for s in range(n) for i in range(len(a[s])) if (k + s + i) % 2], "b": [[s, 0] for s in range(n) if (k // 2 + s) % 2]}
    spec = dict(a=a, t=case["t"], rf=False, L=L, AL=AL if mdp else {}, R=None); b = M.Built(spec, case["pres"]); ctx.state(str(a), str(case["pres"]), case["t"])
    m1, m2 = maps("x", mdp), maps("v", mdp); cfg = (VisualizationConfig(*m2) if mdp else DTMCVisualizationConfig(*m2[:2]))
    sys = model(b); before = snap_model(sys)
    def call(s, m): return s.digraph(*m) if mdp else s.digraph(state_map=m[0], trans_map=m[1])
    e = graph_problem(call(sys, m1), sys, m1, mdp); ctx.op(); ctx.trace()
    if e: return ctx.fail("maps as arguments: " + e)
    sysv = model(b, cfg); e = graph_problem(sysv.digraph(), sysv, m2, mdp); ctx.op()
    if e: return ctx.fail("maps as configuration: " + e)
    mix = (m1[0], m2[1], m2[2]); e = graph_problem(sysv.digraph(state_map=m1[0]), sysv, mix, mdp); ctx.op()
    if e: return ctx.fail("state map as argument, others as configuration: " + e)
    # default maps: every state shows its number and labels, every transition its probability
    nodes, edges = parse(sys.digraph().source); ctx.op()
    d = dict(nodes); tr = M.triples(sys)
    if len(nodes) != sys.N + (sys.C if mdp else 0) or len(edges) != len(tr) + (sys.C if mdp else 0): return ctx.fail("default maps: %d nodes and %d edges" % (len(nodes), len(edges)))
    for s in range(sys.N):
        x = d[str(s)]["label"].split("\n")
        if x[0] != "State %d" % s or set(x[1].split(",")) - {""} != set(sys.labels_by_state[s]): return ctx.fail("default maps: state %d is shown as %r" % (s, d[str(s)]["label"]))
    same = {}
    for s in range(sys.N): same.setdefault(frozenset(sys.labels_by_state[s]), set()).add(d[str(s)]["color"])
    if any(len(c) > 1 for c in same.values()): return ctx.fail("default maps: states with the same labels have different colors")
    if mdp:
        for (s, q) in sys.index_by_state_action:
            x = d["%d-%d" % (s, q)]["label"]
            if "\n" not in x: x += "\n"
            if not x.startswith("%d\n" % q) or sorted(x.split("\n")[1]) != sorted("".join(sys.labels_by_action[(s, q)])): return ctx.fail("default maps: action %s is shown as %r" % ((s, q), x))
    shown = collections.Counter((x, y, float(z["label"])) for x, y, z in edges if "label" in z and z["label"] != "")
    we = collections.Counter((("%d-%d" % (s, q)) if mdp else str(s), str(u), round(p, 10)) for (s, q, u), p in tr.items())
    if shown != we: return ctx.fail("default maps: probabilities %s instead of %s" % (shown, we))
    if snap_model(sys) != before: return ctx.fail("rendering changes the model")
    ctx.outcome("gen", case["t"], n, len(tr))
    # reduction: states and actions are shown as in the original model
    if not ref.reduction(spec)[0]: return
    rf, smap, amap = ReachabilityForm.reduce(sysv, "init", "target"); q = rf.system; N = q.N; ctx.op()
    inv, ainv = {v: u for u, v in smap.items()}, {v: u for u, v in amap.items()}
    def composed(gm, fm):
        def pick(s): return gm if s == N - 2 else fm if s == N - 1 else None
        sm = lambda s, l: (pick(s)[0](s, l) if pick(s) else m2[0](inv[s], l))
        am = lambda s, a_, l: (pick(s)[2](s, a_, l) if pick(s) else m2[2](*ainv[(s, a_)], l))
        if mdp: tm = lambda s, a_, t, p: (pick(t)[1](s, a_, t, p) if pick(t) else m2[1](*ainv[(s, a_)], inv[t], p))
        else: tm = lambda s, t, p: (pick(t)[1](s, t, p) if pick(t) else m2[1](inv[s], inv[t], p))
        return sm, tm, am
    gm, fm = maps("g", mdp), maps("f", mdp)
    dflt = parse(q.digraph().source); dn = dict(dflt[0])
    if dn[str(N - 2)].get("color") == dn[str(N - 1)].get("color") or "rf_target" not in dn[str(N - 2)].get("label", "") or "rf_fail" not in dn[str(N - 1)].get("label", ""): return ctx.fail("reduced model: goal and fail are shown as %s and %s" % (dn[str(N - 2)], dn[str(N - 1)]))
    rf.set_target_visualization_style(VisualizationConfig(*gm) if mdp else DTMCVisualizationConfig(*gm[:2])); rf.set_fail_visualization_style(VisualizationConfig(*fm) if mdp else DTMCVisualizationConfig(*fm[:2]))
    c = composed(gm, fm); e = graph_problem(q.digraph(), q, c, mdp); ctx.op(); ctx.trace()
    if e: return ctx.fail("reduced model: " + e)

def check_rf(case, ctx):
    from switss.utils import VisualizationConfig, DTMCVisualizationConfig
    from switss.problem import Subsystem
    from switss.model import ReachabilityForm
    k = case["k"]; spec = dict(case["spec"]); n = len(spec["a"]); mdp = spec["t"] == "mdp"
    spec["L"] = dict(spec["L"], odd=[s for s in range(n) if s % 2]); b = M.Built(spec, case["pres"]); ctx.state(str(spec["a"]), str(case["pres"]))
    keys = k % 4 != 3; m = maps("v", mdp, keys); intact = lambda: True
    if k % 3 == 0: m, intact = shared(mdp)
    cfg = VisualizationConfig(*m) if mdp else DTMCVisualizationConfig(*m[:2])
    sys = model(b, cfg if k % 2 else None); rf = ReachabilityForm(sys, "init"); vis = sys.visualization; before = snap_model(sys); rows = [r for r in b.rows if r[0] < n]
    base_n, base_e = parse(sys.digraph().source); bn = dict(base_n)
    for form in ("min", "max"):
        D = n if form == "min" else len(rows)
        sups = list(itertools.product((0, 1), repeat=D)) if D <= 5 else [tuple((j >> (i % 5)) & 1 for i in range(D)) for j in range(32)]
        for j, s in enumerate(sups):
            cert = np.array([x * (0.25 + 0.125 * ((i + j) % 5)) for i, x in enumerate(s)]); cc = cert.copy()
            inside = {x for x in range(n) if s[x]} if form == "min" else {b.S[rows[q][0]] for q in range(D) if s[q]}
            for w in (True, False):
                sub = Subsystem(rf, cert, form); small = (j + w) % 3 == 0
                dg = sub.digraph(show_weights=w, small=small) if (j + k) % 4 or not w else sub.digraph(); ctx.op(); ctx.trace()
                what = "%s form, certificate %s, show_weights=%s: " % (form, cert.tolist(), w); nodes, edges = parse(dg.source); nd = dict(nodes)
                if len(nodes) != len(nd) or set(nd) != set(bn): return ctx.fail(what + "nodes %s instead of %s" % (sorted(x for x, _ in nodes), sorted(bn)))
                if sorted((x, y, str(sorted(z.items()))) for x, y, z in edges) != sorted((x, y, str(sorted(z.items()))) for x, y, z in base_e): return ctx.fail(what + "the edges differ from those of the model")
                for x in range(n + 2):
                    at = nd[str(x)]; ba = bn[str(x)]
                    if x < n and x not in inside:
                        if at.get("label", "") != "" or not re.search("gr[ae]y|azure", at.get("color", "")): return ctx.fail(what + "state %d is not in the subsystem but shown as %s" % (x, at))
                        continue
                    i = b.ibsa[(x, 0)] if x < n and not mdp and form == "max" else x
                    show = w and x < n and (form == "min" or not mdp)
                    exp = dict(ba)
                    if show: exp["label"] = (ba.get("label", "") + "\n" if ba.get("label", "") else "") + "c[%d]=%.5f" % (i, cert[i])
                    if at != exp: return ctx.fail(what + "state %d is shown as %s, expected %s" % (x, at, exp))
                if mdp:
                    for (x, a) in sys.index_by_state_action:
                        at = nd["%d-%d" % (x, a)]; ba = bn["%d-%d" % (x, a)]; show = w and form == "max" and x in inside
                        if show:
                            i = b.ibsa[(x, a)]; t = "c[%d]=%.5f" % (i, cert[i])
                            if re.sub("\n+", "\n", at.get("label", "")) != re.sub("\n+", "\n", ((ba["label"] + "\n") if ba.get("label", "") else "") + t): return ctx.fail(what + "action %s is shown as %s" % ((x, a), at))
                        elif at.get("label", "") != ba.get("label", ""): return ctx.fail(what + "action %s is shown as %s" % ((x, a), at))
                ctx.outcome("sub", form, len(inside), w)
            if (cert != cc).any() or snap_model(sys) != before or sys.visualization is not vis or not intact(): return ctx.fail("rendering changes the model or certificate")
