"""C25: prism_to_tra, from_prism_model and parse_label_file with a scripted prism."""
from common import *
import os, re, shutil, tempfile, io, contextlib

LEVEL = "fault_enumeration"
RULE = "one evaluation per call of prism_to_tra, from_prism_model or parse_label_file; non-trivial distinct: distinct (model text, constants, labels, answer of prism) resp. label file"
TECHNIQUE = "exhaustive enumeration of calls (constants, extra labels, model texts) and of the answers of the prism process (exit codes, signals, output, exported files) with a scripted prism on the PATH; exhaustive enumeration of label files"
ASSUMPTIONS = ["prism is a script that records its arguments and the model it is given, writes prepared files and ends as told; that the real prism understands the recorded call is not decided",
               "label files have the format that prism exports (header with numbered quoted names, then one line per labelled state)"]

FAKE = r'''#!/bin/bash
for a in "$@"; do printf '%s\0' "$a"; done > "$MC_PRISM/argv"
echo x >> "$MC_PRISM/calls"
for a in "$@"; do if [ -f "$a" ] && [ "${a#-}" = "$a" ]; then cp "$a" "$MC_PRISM/model"; fi; done
p=""; for a in "$@"; do if [ "$p" = "-exportmodel" ]; then d="${a%.tra,sta,lab}"; fi; p="$a"; done
if [ -f "$MC_PRISM/model.tra" ]; then cp "$MC_PRISM/model.tra" "$d.tra"; cp "$MC_PRISM/model.lab" "$d.lab"; echo "(s)" > "$d.sta"; fi
echo "PRISM ====="; echo "some output"; [ "$MC_PRISM_EXIT" = err ] && { echo trouble >&2; exit 1; }
[ "$MC_PRISM_EXIT" = kill ] && kill -9 $$
exit $MC_PRISM_EXIT
'''

def setup(scratch):
    d = os.path.join(scratch, "fakebin"); os.makedirs(d, exist_ok=True); p = os.path.join(d, "prism")
    open(p, "w").write(FAKE); os.chmod(p, 0o755); os.environ["PATH"] = d + ":" + os.environ["PATH"]

TEXTS = [b"dtmc\nmodule m\n s:[0..1];\nendmodule\n", b"mdp\nmodule m endmodule", b"dtmc\n// a comment at the end", b"", b"\n\n", b"mdp\r\nmodule m\r\nendmodule\r\n",
         "dtmc // \u00e4\u20ac\n".encode(), b"dtmc // latin \xe4\xff\n", b"label \"a\" = s=0;\n", b"x" * 70000]
CONSTS = [{}, {"N": 3}, {"N": 3, "K": 5}, {"p": 0.25, "N": -1}, {"A": 1, "B": 2, "C": 3}, {"p": 0.123456789012, "q": 1e-10, "N": 123456789}, {"p": 1 / 3, "x": 1e22}, {"c%d" % i: i * i for i in range(45)}]
LABELS = [{}, {"x": "s=0"}, {"x": "s=0", "y": "s=1&t>=2"}, {"a b": "true", "z_1": "!(s=0) | (t=3)"}, {"u": "\u00e4=1"}, {"l%d" % i: "s=%d" % i for i in range(45)}]
ANSWERS = ["0", "1", "2", "127", "err", "kill"]

def label_relations(tier):
    """(states, names, relation as bitmask per state)"""
    out = []
    for n, m in ((1, 1), (1, 3), (2, 2), (3, 2), (2, 3)) + (((3, 3), (4, 2)) if tier == "thorough" else ()):
        for bits in itertools.product(range(2 ** m), repeat=n): out.append((n, m, bits))
    return out

NAMES = [["init", "deadlock", "target"], ["a", "b c", "x=1"], ["L1", "l1", "1"], ["s: 1", "0", "(y)"]]
IDS = [[0, 1, 2], [2, 0, 1], [10, 3, 11], [0, 5, 100]]

def cases(tier):
    out = [dict(kind="call", text=i, const=j, lab=k) for i in range(len(TEXTS)) for j in range(len(CONSTS)) for k in range(len(LABELS))]
    n = len(label_relations(tier)); out += [dict(kind="lab", lo=i, hi=min(n, i + 40), tier=tier) for i in range(0, n, 40)]
    st = structures(tier); out += [dict(kind="model", lo=i, hi=min(len(st), i + 20), tier=tier) for i in range(0, len(st), 20)]
    return out

def structures(tier):
    out = [(a, "mdp") for a in M.gen_structures(2, "dh", 2)] + [(a, "dtmc") for a in M.gen_structures(2, "dht", 1)] + [(a, "dtmc") for a in M.gen_structures(3, "dhn" if tier == "thorough" else "d", 1)]
    return out

def bounds(tier):
    return "10 model texts (with and without line break at the end, comment at the end, empty, CRLF, bytes that are not UTF-8, 70 kB) x 8 sets of constants (up to 45, also with many digits and of very different sizes) x 6 sets of extra labels (up to 45, dictionaries and lists of pairs) x 6 ways in which prism ends (exit 0, 1, 2, 127, error output, killed); all label relations of <=%s with 4 sets of names, 4 sets of label numbers, 3 line orders; %d small models exported by prism (with and without action names), each exit code once" % ("3 states and 3 labels, 4 states and 2 labels" if tier == "thorough" else "3 states and 2 labels, 2 states and 3 labels", len(structures(tier)))

def arm(d, how, files=None):
    os.environ["MC_PRISM"] = d; os.environ["MC_PRISM_EXIT"] = how
    for f in ("argv", "calls", "model", "model.tra", "model.lab"):
        if os.path.exists(os.path.join(d, f)): os.unlink(os.path.join(d, f))
    for k, v in (files or {}).items(): open(os.path.join(d, k), "w").write(v)

def recorded(d):
    argv = open(os.path.join(d, "argv"), "rb").read().split(b"\0")[:-1]
    calls = open(os.path.join(d, "calls")).read().count("x")
    return [a.decode() for a in argv], calls, open(os.path.join(d, "model"), "rb").read()

def wrong_call(argv, calls, text, orig, const, lab, dest):
    if calls != 1: return "prism was called %d times" % calls
    a = list(argv)
    if "-exportmodel" not in a or a.count("-exportmodel") != 1: return "call %s" % argv
    i = a.index("-exportmodel")
    if dest is not None and a[i + 1] != dest + ".tra,sta,lab": return "exported to %s" % a[i + 1]
    if dest is None and not a[i + 1].endswith(".tra,sta,lab"): return "exported to %s" % a[i + 1]
    del a[i:i + 2]
    got = {}
    while "-const" in a:
        i = a.index("-const")
        for x in a[i + 1].split(","):
            k, v = x.split("=")
            if k in got: return "constant %s given twice" % k
            got[k] = v
        del a[i:i + 2]
    if set(got) != set(const) or any(float(got[k]) != float(const[k]) for k in const): return "constants %s instead of %s" % (got, const)
    if len(a) != 1: return "arguments %s" % argv
    if not text.startswith(orig): return "prism is given another model"
    rest = text[len(orig):]
    if lab:
        if orig and not orig.endswith(b"\n") and not rest.startswith(b"\n"): return "the declarations are joined to the last line of the model"
        lines = [l for l in rest.decode().split("\n") if l.strip()]; seen = {}
        for l in lines:
            m = re.fullmatch(r'\s*label\s*"([^"]*)"\s*=\s*(.*?)\s*;\s*', l)
            if not m or m.group(1) in seen: return "declaration %r" % l
            seen[m.group(1)] = m.group(2)
        if seen != lab: return "declared labels %s instead of %s" % (seen, lab)
    elif rest.strip(): return "something is appended to the model: %r" % rest[:80]

def check(case, ctx):
    d = tempfile.mkdtemp()
    try:
        with contextlib.redirect_stdout(io.StringIO()): return globals()["check_" + case["kind"]](case, ctx, d)
    finally: shutil.rmtree(d, ignore_errors=True)

def check_call(case, ctx, d):
    from switss.prism import prism_to_tra
    from switss.model import MDP
    orig, const, lab = TEXTS[case["text"]], CONSTS[case["const"]], LABELS[case["lab"]]
    mdir = os.path.join(d, "models"); os.mkdir(mdir); mp = os.path.join(mdir, "model file.nm"); dest = os.path.join(d, "FILE")
    open(mp, "wb").write(orig)
    for how in ANSWERS:
        for pairs in ((False, True) if how in ("0", "1") else (False,)):
            c, l = (list(const.items()), list(lab.items())) if pairs else (dict(const), dict(lab))
            arm(d, how); what = "text %r, constants %s, labels %s, prism ends with %s: " % (orig[-30:], c, l, how)
            if not const and not lab and pairs: r = prism_to_tra(mp, dest)
            elif not lab and pairs: r = prism_to_tra(mp, dest, c)
            else: r = prism_to_tra(mp, dest, c, l)
            ctx.op(); ctx.trace(); ctx.state(case["text"], str(c), str(l), how); ctx.outcome("call", how, r)
            e = wrong_call(*recorded(d), orig, const, lab, dest)
            if e: return ctx.fail(what + e)
            if bool(r) != (how == "0"): return ctx.fail(what + "returns %r" % (r,))
            if open(mp, "rb").read() != orig or os.listdir(mdir) != ["model file.nm"]: return ctx.fail(what + "the model file is changed")
            if not pairs and (c != const or l != lab): return ctx.fail(what + "the arguments are changed")
            # from_prism_model passes the same on; prism failing must not yield a model
            files = {"model.tra": "1 1 1\n0 0 0 1\n", "model.lab": '0="init"\n0: 0\n'}
            arm(d, how, files)
            try: m = MDP.from_prism_model(mp, c, l) if const or lab else MDP.from_prism_model(mp)
            except AssertionError: m = None
            ctx.op()
            e = wrong_call(*recorded(d), orig, const, lab, None)
            if e: return ctx.fail(what + "from_prism_model: " + e)
            if (m is not None) != (how == "0"): return ctx.fail(what + "from_prism_model returns %r" % (m,))
            if m is not None and (m.N != 1 or {k: set(v) for k, v in m.states_by_label.items()} != {"init": {0}}): return ctx.fail(what + "from_prism_model returns another model")
    # prism ends well but writes nothing
    arm(d, "0")
    try: MDP.from_prism_model(mp)
    except Exception: pass
    else: return ctx.fail("from_prism_model returns a model although prism has written none")
    ctx.op()

def check_lab(case, ctx, d):
    from switss.prism import parse_label_file
    for k, (n, m, bits) in enumerate(label_relations(case["tier"])):
        if not case["lo"] <= k < case["hi"]: continue
        for v in range(8):
            names = NAMES[(k + v) % 4][:m]; ids = IDS[(k // 4 + v) % 4][:m]; nl = v % 2; order = v % 3
            rel = {s: {names[j] for j in range(m) if bits[s] >> j & 1} for s in range(n)}
            rel = {s * (1 if v < 4 else 7): x for s, x in rel.items()}
            lines = ["%d: %s" % (s, " ".join(str(ids[j]) for j in (range(m) if v < 6 else reversed(range(m))) if names[j] in x)) for s, x in rel.items() if x]
            if order == 1: lines.reverse()
            hd = list(zip(ids, names)); hd = hd if order < 2 else hd[::-1]
            txt = " ".join('%d="%s"' % x for x in hd) + "\n" + "\n".join(lines) + ("\n" if nl and lines else "")
            p = os.path.join(d, "f.lab"); open(p, "w").write(txt)
            sl, ls, idl = parse_label_file(p); ctx.op(); ctx.trace(); ctx.state(txt); ctx.outcome("lab", n, m, len(lines))
            es = {nm: {s for s, x in rel.items() if nm in x} for nm in names}
            if {a: set(b) for a, b in sl.items()} != es: return ctx.fail("label file %r: states by label %s" % (txt, sl))
            if {a: set(b) for a, b in ls.items() if b} != {s: x for s, x in rel.items() if x}: return ctx.fail("label file %r: labels by state %s" % (txt, ls))
            if dict(idl) != dict(zip(ids, names)): return ctx.fail("label file %r: label numbers %s" % (txt, idl))

def check_model(case, ctx, d):
    from switss.model import MDP, DTMC
    mp = os.path.join(d, "m.nm"); open(mp, "w").write("dtmc\n")
    for k, (a, t) in enumerate(structures(case["tier"])):
        if not case["lo"] <= k < case["hi"]: continue
        n = len(a); names = NAMES[k % 4]; rel = {s: {names[j] for j in range(3) if (s * 3 + j + k) % 3 == 0 or (k >> (s + j)) & 1} for s in range(n)}
        tr = {}
        for s in range(n):
            for i, dd in enumerate(a[s]):
                for u, p in dd: tr[(s, i, u)] = float(F(p))
        named = k % 2 and t == "mdp"
        tra = ("%d %d %d\n" % (n, sum(map(len, a)), len(tr)) if t == "mdp" else "%d %d\n" % (n, len(tr))) + "".join(
            ("%d %d %d %r%s\n" % (s, i, u, p, " act%d" % i if named else "")) if t == "mdp" else "%d %d %r\n" % (s, u, p) for (s, i, u), p in sorted(tr.items()))
        lab = " ".join('%d="%s"' % (j, x) for j, x in enumerate(names)) + "\n" + "".join("%d: %s\n" % (s, " ".join(str(j) for j, x in enumerate(names) if x in rel[s])) for s in range(n) if rel[s])
        for how in ("0", ANSWERS[1 + k % 5]):
            arm(d, how, {"model.tra": tra, "model.lab": lab})
            try: m = (MDP if t == "mdp" else DTMC).from_prism_model(mp, {"N": k}, {"l": "s=0"})
            except AssertionError: m = None
            ctx.op(); ctx.trace(); ctx.state(str(a), t, how); ctx.outcome("model", t, how)
            if how != "0":
                if m is not None: return ctx.fail("a model although prism ended with %s" % how)
                continue
            if m is None: return ctx.fail("no model for\n%s%s" % (tra, lab))
            if m.N != n or M.triples(m) != tr: return ctx.fail("model %s instead of %s" % (M.triples(m), tr))
            if {x: set(v) for x, v in m.states_by_label.items() if v} != {x: {s for s in rel if x in rel[s]} for x in names if any(x in rel[s] for s in rel)}: return ctx.fail("labels %s for\n%s" % (dict(m.states_by_label.items()), lab))
