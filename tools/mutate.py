#!/usr/bin/env python3
"""Looks for holes in the checks: makes small changes to copies of /repo one at a time and runs the checks of the changed file.

mutate.py list [files...]                   prints the changes
mutate.py run OUT.jsonl [-j N] [files...]   runs them (continues OUT.jsonl)
Changes that the stable tests notice are left out. Every check runs with one worker and for a limited time (cases in a strided
order), so that "survived" only means: look at it.
"""
import sys, os, ast, json, re, subprocess, shutil, time, hashlib, multiprocessing, warnings
warnings.simplefilter("ignore")
PERLINE = int(os.environ.get("MUT_PERLINE", "3"))       # at most this many changes per line
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "switss/"
CHECKS = {
 "model/amdp.py": "C15 C19 C17 C18 C02 C26", "model/mdp.py": "C18 C26 C27 C02", "model/dtmc.py": "C18 C26 C27 C19 C02",
 "model/reachability_form.py": "C02 C03 C05 C04 C01 C14 C20 C27 C07", "model/reward_reachability_form.py": "C12 C13 C20",
 "certification/certificates.py": "C06 C07 C22", "certification/__init__.py": "C06",
 "problem/problemform.py": "C22 C08 C10 C20", "problem/milpexact.py": "C08 C09 C13 C22 C29 C20", "problem/qsheur.py": "C10 C13 C22 C20",
 "problem/qsheurparams.py": "C10 C13 C20", "problem/formulations.py": "C08 C09 C10 C13 C29", "problem/subsystem.py": "C11 C08 C13 C27",
 "problem/tree_algo.py": "C28 C22", "solver/milp.py": "C21 C29 C22 C08", "solver/milpresult.py": "C21 C22", "prism/prism.py": "C25 C18 C24",
 "utils/graph.pyx": "C15 C14", "utils/stack.pyx": "C15 C14", "utils/treaps.pyx": "C16 C14", "utils/tree_decomp.pyx": "C28", "utils/graph_utils.py": "C32 C28",
 "utils/invertible_dict.py": "C17", "utils/graphviz_utils.py": "C27", "utils/utils.py": "C19 C27", "benchmarks/benchmarks.py": "C23 C31", "benchmarks/__init__.py": "C23",
}
def files():
    out = {}
    for d, _, fs in os.walk("/repo/switss"):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), "/repo/switss")
            if f.endswith((".py", ".pyx")) and "test" not in r: out[S + r] = CHECKS.get(r, "")
    out["bin/switss"] = "C24"
    return {k: v.split() for k, v in out.items() if v}

class Mut(ast.NodeVisitor):
    """replacements (line, col, endline, endcol, new text, what)"""
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    STR = {"min": "max", "max": "min", "<=": ">=", ">=": "<=", "forward": "backward", "backward": "forward", "=": "<="}
    def __init__(self, src):
        self.src = src; self.lines = src.split("\n"); self.out = []; self.docs = set()
    def seg(self, n): return ast.get_source_segment(self.src, n)
    def rep(self, n, new, what): self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, what))
    def visit_body(self, n):
        b = getattr(n, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant): self.docs.add(id(b[0]))
    def generic_visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)): self.visit_body(n)
        if id(n) in self.docs: return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = self.seg(n.left), self.seg(n.comparators[0])
            self.rep(n, "(%s) %s (%s)" % (l, self.CMP[type(n.ops[0])], r), "compare")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            self.rep(n, op.join("(%s)" % self.seg(v) for v in n.values), "boolop")
            for i in range(len(n.values)):
                self.rep(n, "(%s)" % self.seg(n.values[1 - i] if len(n.values) == 2 else n.values[i]), "drop operand")
        if isinstance(n, ast.UnaryOp):
            self.rep(n, "(%s)" % self.seg(n.operand), "drop unary")
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*"}[type(n.op)]
            self.rep(n, "(%s) %s (%s)" % (self.seg(n.left), new, self.seg(n.right)), "arith")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool): self.rep(n, str(not n.value), "bool")
            elif isinstance(n.value, int): self.rep(n, str(n.value + 1), "const+1")
            elif isinstance(n.value, float): self.rep(n, repr(n.value * 10), "const*10")
            elif isinstance(n.value, str) and n.value in self.STR: self.rep(n, repr(self.STR[n.value]), "string")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy") :
                if n.args: self.rep(n, self.seg(n.args[0]), "drop copy")
                else: self.rep(n, self.seg(n.func.value), "drop copy")
            elif isinstance(n.func, ast.Name) and n.func.id in ("sorted", "set", "int", "list", "abs", "float", "bidict", "max", "min", "sum", "len", "round") and len(n.args) == 1 and n.func.id not in ("sum", "len"):
                self.rep(n, "(%s)" % self.seg(n.args[0]), "drop call")
            for i, k in enumerate(n.keywords):
                pass
            if len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
                a, b = n.args[:2]
                self.out.append((a.lineno, a.col_offset, b.end_lineno, b.end_col_offset, self.seg(b) + ", " + self.seg(a), "swap args"))
        if isinstance(n, (ast.If, ast.While)) :
            t = n.test
            if isinstance(n, ast.If): self.rep(t, "True", "cond true")
            self.rep(t, "False", "cond false")
        if isinstance(n, ast.IfExp):
            self.rep(n, "(%s)" % self.seg(n.body), "then"); self.rep(n, "(%s)" % self.seg(n.orelse), "else")
        if isinstance(n, ast.comprehension):
            for c in n.ifs: self.rep(c, "True", "drop filter")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Assert, ast.Raise, ast.Delete, ast.Return)):
            one = True
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and self.seg(n.value.func) in ("print", "plt"): one = False
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): one = False
            if isinstance(n, ast.Return) and n.value is None: one = False
            if one: self.rep(n, "pass" if not isinstance(n, ast.Return) else "return None", "delete statement")
        if isinstance(n, ast.For):
            self.rep(n.iter, "list(%s)[1:]" % self.seg(n.iter), "skip first"); self.rep(n.iter, "list(%s)[:-1]" % self.seg(n.iter), "skip last")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print": return
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"): continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST): self.generic_visit(c)

def apply(src, m):
    l1, c1, l2, c2, new, _ = m
    lines = src.split("\n")
    b = lambda i, c: len(lines[i - 1].encode()[:c].decode())
    head = "\n".join(lines[:l1 - 1] + [lines[l1 - 1][:b(l1, c1)]]); tail = "\n".join([lines[l2 - 1][b(l2, c2):]] + lines[l2:])
    return head + new + tail

PYX = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![-<>=!])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"\+ 1\b", "+ 2"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"-1\b", ""),
       (r"\+=", "-="), (r"\bnot ", ""), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bmin\(", "max("), (r"\.left\b", ".right"), (r"\.right\b", ".left"), (r"\bsuccessors\b", "predecessors"), (r"\bpredecessors\b", "successors"),
       (r"= 0\b", "= 1"), (r"= 1\b", "= 0"), (r"\bNULL\b", "NULL"), (r"\bcontinue\b", "pass"), (r"\bbreak\b", "pass"), (r"\blowlink\b", "index"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"<int> ", "")]
def mutants(f):
    src = open("/repo/" + f).read(); out = []
    if not f.endswith(".pyx"):
        v = Mut(src); v.generic_visit(ast.parse(src)); seen = set()
        for m in v.out:
            new = apply(src, m)
            if new == src or new in seen: continue
            try: compile(new, f, "exec")
            except (SyntaxError, ValueError): continue
            seen.add(new); out.append((m[0], m[5], new))
    else:
        lines = src.split("\n"); seen = set()
        for i, l in enumerate(lines):
            code = l.split("#")[0]
            if not code.strip() or code.strip().startswith(("cdef class", "cimport", "from", "import", "print")): continue
            for pat, new in PYX:
                for m in re.finditer(pat, code):
                    if pat.startswith("(?<!") and "malloc" in code: continue
                    t = "\n".join(lines[:i] + [code[:m.start()] + new + code[m.end():]] + lines[i + 1:])
                    if t != src and t not in seen: seen.add(t); out.append((i + 1, "%s -> %s" % (m.group(0), new), t))
            st = code.strip()
            if re.match(r"^[\w\.\[\], ]+\s*[-+]?=[^=]", st) and not st.startswith(("cdef", "def")) or re.match(r"^(free\w*|push|continue|ret\w*\.)", st):
                ind = code[:len(code) - len(code.lstrip())]
                t = "\n".join(lines[:i] + [ind + "pass"] + lines[i + 1:])
                if t not in seen: seen.add(t); out.append((i + 1, "delete statement", t))
    by = {}
    for m in out: by.setdefault(m[0], []).append(m)
    return [m for l in sorted(by) for m in sorted(by[l], key=lambda m: hashlib.sha1(m[2].encode()).hexdigest())[:PERLINE]]

def ident(f, line, what, new): return hashlib.sha1((f + new).encode()).hexdigest()[:10]

def worker(w, jobs, out, lock, base):
    d = os.path.join(base, "w%d" % w); repo = d + "/repo"; ver = d + "/verif"
    os.makedirs(d); subprocess.run(["cp", "-a", "/repo", repo]); os.makedirs(ver)
    for x in ("mc", "run.sh", "known_findings.json"): subprocess.run(["cp", "-a", os.path.join(ROOT, x), ver])
    vp = d + "/vp"; os.makedirs(vp)
    for f in os.listdir("/opt/vp"):
        if f.endswith(".sh"): open(os.path.join(vp, f), "w").write(open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp/", vp + "/").replace("PYTHONPATH=%s:/opt/vp" % repo, "PYTHONPATH=%s:%s" % (repo, vp)))
        else: subprocess.run(["cp", "-a", "/opt/vp/" + f, vp])
    os.makedirs(d + "/tmp")
    env = dict(os.environ, SWITSS_REPO=repo, MC_WORKERS="1", MC_DEADLINE=os.environ.get("MUT_DEADLINE", "12"), MC_STRIDE="37", VERIF_TIER="quick", VERIF_SEED="1", TMPDIR=d + "/tmp")
    while True:
        try: f, checks, line, what, new = jobs.get(timeout=2)
        except Exception: break
        p = os.path.join(repo, f); old = open(p).read(); r = dict(id=ident(f, line, what, new), file=f, line=line, what=what, text=new.split("\n")[line - 1].strip()[:200], by=None, t=time.time())
        try:
            open(p, "w").write(new)
            ok = True
            if f.endswith(".pyx"):
                if f.endswith("tree_decomp.pyx"): ok = subprocess.run(["/opt/venv/bin/cython", "-3", p, "-o", d + "/tmp/td.c"], capture_output=True).returncode == 0
                else: ok = subprocess.run(["bash", vp + "/build.sh"], capture_output=True, timeout=300).returncode == 0
            else: ok = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import switss.model, switss.problem, switss.certification, switss.solver, switss.prism, switss.utils, switss.benchmarks"], cwd=repo, capture_output=True).returncode == 0
            if not ok: r["by"] = "build"
            else:
                o = d + "/o.json"
                if os.path.exists(o): os.unlink(o)
                try: subprocess.run(["bash", vp + "/test.sh", o], capture_output=True, timeout=300)
                except subprocess.TimeoutExpired: pass
                passed = json.load(open(o))["passed"] if os.path.exists(o) else []
                if [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]: r["by"] = "tests"
                for c in checks if r["by"] is None else []:
                    try: q = subprocess.run(["./run.sh", c], cwd=ver, env=env, capture_output=True, text=True, timeout=500); rc = q.returncode
                    except subprocess.TimeoutExpired: rc = "timeout"
                    if rc == 1: r["by"] = c; break
                    if rc != 0: r["by"] = "%s:%s" % (c, rc); break
        finally:
            open(p, "w").write(old)
            if f.endswith(".pyx") and not f.endswith("tree_decomp.pyx"): subprocess.run(["bash", vp + "/build.sh"], capture_output=True)
        r["t"] = round(time.time() - r["t"], 1)
        with lock:
            with open(out, "a") as g: g.write(json.dumps(r) + "\n")
    shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]; cmd = a.pop(0); fs = files(); n = 7
    if cmd == "run":
        out = a.pop(0)
        if a and a[0] == "-j": a.pop(0); n = int(a.pop(0))
    sel = [f for f in fs if not a or any(x in f for x in a)]
    if cmd == "list":
        tot = 0
        for f in sel:
            m = mutants(f); tot += len(m); print(f, len(m))
            if a:
                for l, w, t in m: print("  %4d %-16s %s" % (l, w, t.split("\n")[l - 1].strip()[:120]))
        print(tot)
    else:
        have = set()
        if os.path.exists(out): have = {json.loads(l)["id"] for l in open(out)}
        todo = [(f, fs[f], l, w, t) for f in sel for l, w, t in mutants(f) if ident(f, l, w, t) not in have]
        print(len(todo), "changes", flush=True)
        base = "/tmp/mutate.%d" % os.getpid(); os.makedirs(base)
        q = multiprocessing.Queue(); lock = multiprocessing.Lock()
        for j in todo: q.put(j)
        ps = [multiprocessing.Process(target=worker, args=(w, q, out, lock, base)) for w in range(n)]
        for p in ps: p.start()
        for p in ps: p.join()
        shutil.rmtree(base, ignore_errors=True)
