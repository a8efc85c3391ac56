"""C24: the command line tool (bin/switss) on model files: rf, info, minimize, certify, subsystem, render."""
from common import *
import checks.c06 as c06, checks.c01 as c01
import os, sys, io, re, json, contextlib, runpy, shutil, tempfile

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded models and command sequences (rf; minimize with every method, mode and threshold region; certify on genuine and tampered certificates; subsystem; render) on the real tool, all files it writes read by an independent reader and compared with exact reference models"
ASSUMPTIONS = ["the tool runs in the process of the harness (the script is executed anew for every command), its files are in a scratch directory",
               "thresholds keep a distance of 1e-4 from every value that a subsystem attains, those for glpk are at least 0.01"]

# ----- independent file formats
def write_model(path, b, t):
    S = b.entries; inv = {k: b.A[r] for r, k in b.row.items()}; rows = []
    for (k, j), p in S.items():
        s, a = inv[k]; rows.append((s, a, j, p))
    rows.sort(key=lambda r: r[:3]) if b.pres["ro"] != "rev" else rows.sort(key=lambda r: (r[0], -r[1], r[2]))
    with open(path + ".tra", "w") as f:
        f.write(("%d %d %d\n" % (b.N, b.C, len(rows))) if t == "mdp" else "%d %d\n" % (b.N, len(rows)))
        for s, a, j, p in rows: f.write(("%d %d %d %r\n" % (s, a, j, p)) if t == "mdp" else "%d %d %r\n" % (s, j, p))
    names = list(b.L)
    with open(path + ".lab", "w") as f:
        f.write(" ".join('%d="%s"' % (i, l) for i, l in enumerate(names)) + "\n")
        for s in range(b.N):
            x = [str(i) for i, l in enumerate(names) if s in b.L[l]]
            if x: f.write("%d: %s\n" % (s, " ".join(x)))

def read_model(path, t):
    with open(path + ".tra") as f: L = f.read().split("\n")
    h = list(map(int, L[0].split())); tr = {}
    for l in L[1:]:
        x = l.split()
        if not x: continue
        k = (int(x[0]), int(x[1]), int(x[2])) if t == "mdp" else (int(x[0]), 0, int(x[1]))
        if k in tr: raise ValueError("transition %s occurs twice" % (k,))
        if float(x[-1]) != 0: tr[k] = float(x[-1])
    with open(path + ".lab") as f: L = f.read().split("\n")
    ids = {int(i): l for i, l in re.findall(r'(\d+)="([^"]*)"', L[0])}; lab = {l: set() for l in ids.values()}
    for l in L[1:]:
        if not l.strip(): continue
        s, x = l.split(":")
        for i in x.split(): lab[ids[int(i)]].add(int(s))
    return h, tr, lab

def cli(*argv):
    """runs the tool; returns (exit status, what it printed)"""
    out = io.StringIO(); av = sys.argv; sys.argv = ["switss"] + [str(a) for a in argv]; rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try: runpy.run_path(os.path.join(os.environ["MC_SRC"], "bin", "switss"), run_name="__main__")
            except SystemExit as e: rc = 0 if e.code in (None, 0) else e.code if isinstance(e.code, int) else 1
            except Exception as e: rc = 1; out.write("%s: %s" % (type(e).__name__, e))
    finally: sys.argv = av
    return rc, out.getvalue()

def rep(a, init, T, t, names, pres):
    n = len(a); L = {names["i"]: [init], names["t"]: list(T), "A": [s for s in range(n) if s % 2 == 0], "B": [s for s in range(n) if s % 2 or s == 2]}
    return dict(a=a, t=t, rf=False, L=L, AL={}, R=None)

def cases(tier):
    th = tier == "thorough"; out = []
    def add(structs, t):
        for a in structs:
            n = len(a); ps = pres_for(n, False)
            # state 0 is initial and the targets are one of the classes up to renaming of the other states: all structures are
            # enumerated, so every model occurs up to the names of its states, which the presentations permute
            for T in ([0], [1], [0, 1]) if n == 2 else ([0], [2], [0, 2], [1, 2], [0, 1, 2]):
                if not ref.reduction(dict(a=a, L=dict(init=[0], target=T)))[0]: continue
                out.append(dict(a=a, t=t, init=0, T=list(T), pres=ps[len(out) % len(ps)], k=len(out)))
    add(M.gen_structures(2, "dh", 2), "mdp")
    add(M.gen_structures(2, "dht", 1), "dtmc")
    add(M.gen_structures(3, "dh", 1) if th else M.gen_structures(3, "d", 1) + M.gen_structures(3, "h", 1), "dtmc")
    add(M.gen_structures(3, "dh" if th else "d", 2, 4), "mdp")
    for s in M.families("quick"):
        n = len(s["a"])
        if n > (12 if th else 7): continue
        # as a general model with goal n and fail n+1
        a = s["a"] + [[M.dirac(n)], [M.dirac(n + 1)]]
        for q in range(3 if th else 1): out.append(dict(a=a, t=s["t"], init=0, T=[n], pres=M.simple_presentations(n + 2)[(len(out) + q) % 3], k=len(out)))
    return out

def bounds(tier):
    return "all MDPs with 2 states (<=2 actions), DTMCs with 2 states, with 3 states (quick: Dirac only and half only rows), MDPs with 3 states and <=4 %sactions, structured families, with state 0 initial and every target set up to renaming; state numberings and row orders in turn; default and given label names and output paths; minimize: MILPExact and QSHeur (1-3 iterations, 3 initializers), both modes, -s and -si, with and without labels, cbc and glpk in turn, one threshold per interval between values of subsystems (<=3, one of them infeasible); certify: the stored certificates and 6 tampered ones, two tolerances; subsystem: the stored certificates and certificates with every support; info, render; misuse of the options" % ("" if tier == "thorough" else "Dirac ")

def check(case, ctx):
    d = tempfile.mkdtemp(); 
    try: return check2(case, ctx, d)
    finally: shutil.rmtree(d, ignore_errors=True)

def check2(case, ctx, d):
    k = case["k"]; t = case["t"]; custom = k % 3 == 1
    nm = dict(i="start", t="done", tr="G", fr="F") if custom else dict(i="init", t="target", tr="rf_target", fr="rf_fail")
    spec = rep(case["a"], case["init"], case["T"], t, nm, case["pres"]); b = M.Built(spec, case["pres"]); path = os.path.join(d, "m")
    write_model(path, b, t); S = b.S; ctx.state(str(case))
    gen = dict(spec, L=dict(init=[case["init"]], target=case["T"])); keep, rows = ref.reduction(gen)
    LB = ["-i", nm["i"], "-trf", nm["tr"], "-frf", nm["fr"]] if custom else []
    rfpath = os.path.join(d, "out") if k % 2 else path + "-rf"
    def run(*a):
        ctx.op(); return cli(*a)
    # ----- info, rf
    rc, o = run("info", t, path)
    if rc: return ctx.fail("info fails: " + o[-300:])
    rc, o = run("rf", t, path, *(LB + (["-t", nm["t"]] if custom else [])), *(["-o", rfpath] if k % 2 else []))
    if rc: return ctx.fail("rf fails: " + o[-400:])
    h, tr, lab = read_model(rfpath, t); mp = json.load(open(rfpath + ".mapping.json"))
    if len({len(v) for v in mp.values()}) != 1 or set(mp) != {"states", "actions", "rfstates", "rfactions"}: return ctx.fail("mapping file %s" % mp)
    amap = {}
    for s, a, rs, ra in zip(mp["states"], mp["actions"], mp["rfstates"], mp["rfactions"]):
        if (s, a) in amap: return ctx.fail("mapping lists %s twice" % ((s, a),))
        amap[(s, a)] = (rs, ra)
    N = len(keep) + 2; C = len(rows) + 2; goal, fail = N - 2, N - 1
    if set(amap) != {b.A[r] for r in rows} or len(set(amap.values())) != len(rows): return ctx.fail("mapping covers %s, expected %s" % (sorted(amap), sorted(b.A[r] for r in rows)))
    smap = {}
    for (s, a), (rs, ra) in amap.items():
        if smap.setdefault(s, rs) != rs: return ctx.fail("mapping is ambiguous for state %d" % s)
    if sorted(smap.values()) != list(range(N - 2)): return ctx.fail("mapped states are %s" % smap)
    exp = {(goal, 0, goal): 1.0, (fail, 0, fail): 1.0}
    for (s, i), (dd, g, f) in rows.items():
        ns, na = amap[b.A[(s, i)]]
        for u, p in dd.items(): exp[(ns, na, smap[S[u]])] = float(p)
        if g: exp[(ns, na, goal)] = 1.0
        if f: exp[(ns, na, fail)] = float(f)
    if h[0] != N or (t == "mdp" and h[1] != C): return ctx.fail("header %s of a form with %d states and %d rows" % (h, N, C))
    if set(tr) != set(exp) or any(abs(tr[x] - exp[x]) > 1e-9 for x in exp): return ctx.fail("transitions of the form differ", got=str(tr), expected=str(exp))
    el = {l: {smap[S[s]] for s in spec["L"][l] if s in keep} for l in spec["L"]}; el[nm["tr"]] = {goal}; el[nm["fr"]] = {fail}
    if {l: v for l, v in lab.items() if v} != {l: v for l, v in el.items() if v}: return ctx.fail("labels of the form are %s, expected %s" % (lab, el))
    # ----- the form as a spec: state 0 is the initial one
    n = N - 2; i0 = smap[S[case["init"]]]; order = [i0] + [x for x in range(n) if x != i0]; sp = {x: j for j, x in enumerate(order)}; sp[goal] = n; sp[fail] = n + 1
    inv = {v: s for s, v in smap.items()}; Sinv = {v: s for s, v in S.items()}
    a2 = []; seqs = []
    for x in order:
        s = Sinv[inv[x]]; acts = []
        for i in range(len(case["a"][s])):
            dd, g, f = rows[(s, i)]; e = {sp[smap[S[u]]]: p for u, p in dd.items()}
            if g: e[n] = e.get(n, F(0)) + g
            if f: e[n + 1] = e.get(n + 1, F(0)) + f
            acts.append([[u, str(p)] for u, p in sorted(e.items())])
        a2.append(acts)
    rspec = M.rf_spec(a2, t); small = n <= 5; ecs = c06.proper_ec_states(rspec); A, bb = ref.farkas(rspec)
    # rows of the loaded form: the .tra file in its order
    raw = []; 
    for l in open(rfpath + ".tra").read().split("\n")[1:]:
        x = l.split()
        if x:
            y = (int(x[0]), int(x[1]) if t == "mdp" else 0)
            if y not in raw: raw.append(y)
    if t == "dtmc": raw.sort()
    back = {v: r for r, v in ((r, amap[b.A[r]]) for r in rows)}
    raw = [y for y in raw if y[0] < n]; srows = [(sp[y[0]], back[y][1]) for y in raw]
    cond = c06.conditions(rspec, type("B", (), dict(n=n)), A, bb, srows, ecs)
    labels = {l: [sp[x] for x in lab[l] if x < n] for l in ("A", "B") if l in lab}
    rep_solve(case, ctx, d, run, rfpath, t, LB, rspec, sp, order, srows, cond, labels, small, ecs, nm, tr, lab, raw)

def support(cert, mode, n, order, srows, sp):
    if mode == "min": return {sp[x] for x in range(n) if cert[x] > 0}
    return {srows[k][0] for k in range(len(srows)) if cert[k] > 0}

def spec_vec(cert, mode, n, sp):
    """certificate in the coordinates of the spec"""
    if mode == "max": return np.array(cert, dtype=float)
    v = np.zeros(n)
    for x in range(n): v[sp[x]] = cert[x]
    return v

def words(o): return re.findall(r"\b(?:IN)?VALID\b", o)

def rep_solve(case, ctx, d, run, rfpath, t, LB, rspec, sp, order, srows, cond, labels, small, ecs, nm, tr, lab, raw):
    n = len(order); k = case["k"]; made = []
    for mode in ("min", "max"):
        e = exact(rspec, mode)[0]
        if small:
            vals = ref.subset_values(rspec, mode); thrs = [x for x in ref.thresholds(vals.values(), 1) if min(abs(v - x) for v in vals.values()) >= F(1, 10000)]
            if len(thrs) > 3: thrs = [thrs[k % (len(thrs) - 2)], thrs[-2], thrs[-1]]
        else: thrs = [e * F(1, 3), e * F(9, 10)] + ([(e + 1) / 2] if e < F(99, 100) else [])
        for thr in thrs:
            if thr < F(1, 1000): continue
            feas = thr <= e
            variants = [("QSHeur", 1 + k % 3, True), ("QSHeur", 1 + k % 3, False)]
            if not (mode == "max" and ecs): variants.append(("MILPExact", None, bool(k % 2)))
            for vi, (meth, its, single) in enumerate(variants):
                c = os.path.join(d, "cert-%d" % len(made)) if (k + vi) % 2 else rfpath + ".certificates.json"
                uselab = (k + vi) % 4 == 3 and bool(labels) and small and not (mode == "max" and ecs); solver = "glpk" if (k + vi) % 5 == 0 and thr >= F(1, 100) else "cbc"
                m = [meth, "mode=" + mode]
                if its is not None and not (its == 3 and k % 4 == 0): m += ["iterations=%d" % its]         # 3 is the default
                if meth == "QSHeur" and k % 4: m.append("initializertype=" + ("AllOnesInitializer", "InverseFrequencyInitializer", "InverseReachabilityInitializer")[k % 3])
                if meth == "QSHeur" and k % 5 == 0: m.append("updatertype=InverseResultUpdater")
                if solver != "cbc" or k % 2: m.append("solver=" + solver)
                sv = ["threshold=%r" % float(thr)] + (["labels=" + ",".join(sorted(labels))] if uselab else [])
                if os.path.exists(c): os.unlink(c)
                av = ["minimize", t, rfpath] + LB + ["-m"] + m + ["-s" if single else "-si"] + sv + (["-c", c] if (k + vi) % 2 else [])
                rc, o = run(*av); ctx.trace(); what = "%s, %s: " % (" ".join(av[3:]), "feasible" if feas else "infeasible")
                if rc: return ctx.fail(what + "fails: " + o[-400:])
                if not os.path.exists(c): return ctx.fail(what + "no certificate file")
                info = json.load(open(c)); ins = info["instances"]; ctx.outcome(meth, mode, single, feas, len(ins), uselab)
                if info["method"].get("mode") != mode: return ctx.fail(what + "mode of the results is %s" % info["method"].get("mode"))
                if not feas:
                    if ins or words(o): return ctx.fail(what + "has certificates %s" % ins)
                    continue
                most = 1 if single or meth == "MILPExact" else its
                if not 1 <= len(ins) <= most: return ctx.fail(what + "%d certificates" % len(ins))
                if words(o) != ["VALID"] * len(ins): return ctx.fail(what + "prints %s" % words(o))
                if [x["iteration"] for x in ins] != list(range(len(ins))): return ctx.fail(what + "iterations %s" % [x["iteration"] for x in ins])
                for x in ins:
                    cert = x["certificate"]
                    if abs(x["threshold"] - float(thr)) > 1e-12: return ctx.fail(what + "threshold recorded as %s" % x["threshold"])
                    if len(cert) != (n if mode == "min" else len(srows)): return ctx.fail(what + "certificate has length %d" % len(cert))
                    viol, tt, zero = cond(mode, ">=", float(thr), spec_vec(cert, mode, n, sp))
                    if max(viol, tt, zero) > 3e-5: return ctx.fail(what + "certificate violates its conditions by %g" % max(viol, tt, zero))
                    Sx = support(cert, mode, n, order, srows, sp); rr = ref.restrict(rspec, Sx)
                    v = (rr.prmin() if mode == "min" else rr.prmax())[0] if 0 in Sx else F(0)
                    if v < thr: return ctx.fail(what + "the support %s of the certificate only has value %s" % (sorted(Sx), float(v)))
                    if meth == "MILPExact" and small:
                        cost = (lambda U: sum(1 for l in labels if set(labels[l]) & set(U))) if uselab else len
                        best = min(cost(U) for U, w in vals.items() if w >= thr)
                        if cost(Sx) != best: return ctx.fail(what + "the support %s costs %d, the minimum is %d" % (sorted(Sx), cost(Sx), best))
                made.append((mode, thr, ins, info["method"], what))
    for q, (mode, thr, ins, meth, what) in enumerate(made):
        # the same certificates under certify and subsystem, then tampered ones
        if (q + k) % 2: continue
        L = [list(x["certificate"]) for x in ins]; c = os.path.join(d, "x.json"); thrf = float(thr)
        cert = L[-1]; tam = [(cert, thrf, 1e-5), (cert, min(1.0, thrf + .6), 1e-5), ([y * .5 for y in cert], thrf, 1e-5), ([0.0] * len(cert), thrf, 1e-5), ([y + .3 for y in cert], thrf, 1e-5), ([y * .999 for y in cert], thrf, 1e-2), ([y * .9 for y in cert], thrf, 1e-2)]
        for tol in (1e-5, 1e-2):
            want = []; rec = []
            for cv, th2, tl in tam + [(y, thrf, 1e-5) for y in L]:
                viol, tt, zero = cond(mode, ">=", th2, spec_vec(cv, mode, n, sp)); w = max(viol, tt)
                if w <= tol / 3 and zero <= tol / 3: want.append("VALID")
                elif w >= 3 * tol or zero >= 3 * tol: want.append("INVALID")
                else: ctx.note("not judged"); continue
                rec.append(dict(iteration=len(rec), threshold=th2, certificate=cv))
            json.dump(dict(method=meth, instances=rec), open(c, "w"))
            rc, o = run("certify", t, rfpath, *LB, "-c", c, *([] if tol == 1e-5 else ["-tol", "1e-2"]))
            if rc: return ctx.fail(what + "certify fails: " + o[-300:])
            if words(o) != want: return ctx.fail(what + "certify says %s, expected %s (tolerance %g)" % (words(o), want, tol), certificates=str(rec))
            ctx.outcome("certify", tuple(want), tol)
    # ----- subsystem
    for mode in ("min", "max"):
        D = n if mode == "min" else len(srows); sups = list(itertools.product((0, 1), repeat=D)) if D <= 4 else [tuple((j >> (i % 5)) & 1 for i in range(D)) for j in range(32)]
        if k % 2: sups = sups[::2]
        c = os.path.join(d, "s.json"); outp = os.path.join(d, "sub") if k % 2 else rfpath + "-subsys"; sl = "in_sub" if k % 3 == 0 else "subsystem"; step = 3 if k % 4 == 1 else 1
        json.dump(dict(method=dict(mode=mode), instances=[dict(iteration=j * step, threshold=.5, certificate=[u * (.25 + .5 * (i % 2)) for i, u in enumerate(s)]) for j, s in enumerate(sups)]), open(c, "w"))
        rc, o = run("subsystem", t, rfpath, *LB, "-c", c, *(["-o", outp] if k % 2 else []), *(["-sl", sl] if sl != "subsystem" else []))
        if rc: return ctx.fail("subsystem fails: " + o[-400:])
        for j, s in enumerate(sups):
            h3, tr3, lab3 = read_model("%s-%d" % (outp, j * step), t); ctx.trace()
            if mode == "min": want = {x for x in range(n) if s[x]}
            else: want = {raw[q][0] for q in range(D) if s[q]}
            if lab3.get(sl, set()) != want: return ctx.fail("subsystem marks the states %s for support %s (%s form), expected %s" % (lab3.get(sl), s, mode, want))
            lab3.pop(sl, None)
            if {l: v for l, v in lab3.items() if v} != {l: v for l, v in lab.items() if v} or tr3 != tr: return ctx.fail("subsystem changes the model (support %s)" % (s,))
            for x in (".tra", ".lab"): os.unlink("%s-%d%s" % (outp, j * step, x))
        ctx.outcome("subsystem", mode, D)
        # a label that the model has already
        rc, o = run("subsystem", t, rfpath, *LB, "-c", c, "-o", outp, "-sl", nm["tr"])
        if rc == 0 or os.path.exists(outp + "-0.tra"): return ctx.fail("subsystem accepts a label that the model has already")
    if k % 8 == 0:
        out = os.path.join(d, "pic"); rc, o = run("render", t, rfpath, "-o", out, *(["-col", nm["tr"] + ",A"] if k % 16 else []))
        if rc: return ctx.fail("render fails: " + o[-300:])
        svg = open(out + ".svg").read()
        if len(re.findall(r'class="node"', svg)) < n + 2: return ctx.fail("the rendering has fewer nodes than the model has states")
    if k % 8 == 1:
        for av in (["minimize", t, rfpath, "-m", "QSHeur", "mode=min"], ["minimize", t, rfpath, "-s", "threshold=0.5"], ["minimize", t, rfpath, "-m", "Nothing", "mode=min", "-s", "threshold=0.5"],
                   ["minimize", t, rfpath, "-m", "QSHeur", "mode=neither", "-s", "threshold=0.5"], ["certify", t, rfpath], ["rf", t, os.path.join(d, "nofile")], ["rf", "ctmc", rfpath], ["nonsense", t, rfpath], [],
                   ["minimize", t, rfpath, "-i", "nolabel", "-m", "QSHeur", "mode=min", "-s", "threshold=0.5"]):
            if os.path.exists(rfpath + ".certificates.json"): os.unlink(rfpath + ".certificates.json")
            rc, o = run(*av)
            if rc == 0: return ctx.fail("misuse is reported as success: %s" % " ".join(av))
            if os.path.exists(rfpath + ".certificates.json"): return ctx.fail("misuse writes certificates: %s" % " ".join(av))
