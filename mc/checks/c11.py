"""C11: Subsystem is the restriction to the support of the certificate, for every support."""
from common import *

ASSUMPTIONS = ["supports of which the initial state is part and whose materialisation is a reachability form are checked with consistency checks on, all others containing the initial state with them off"]

SIZES = (1.0, 1e-10, 0.25, 1e6, 1e-300, 1e-7, 1.25)

def cases(tier):
    th = tier == "thorough"
    out = rf_cases(M.rf_enum(1, "dhtn"), presall=True) + rf_cases(M.rf_enum(2, "dh"), presall=th) + rf_cases(M.rf_enum(2, "dh", 2, 3), presall=True)
    out += rf_cases(M.rf_dtmcs(3, "dhn")) + rf_cases(M.rf_enum(3, "dh" if th else "h", 2, 4)) + rf_cases(M.rf_enum(3, "d", 2, 5))
    out += rf_cases([s for s in M.families(tier) if len(s["a"]) <= 9] + M.large(2, 9), simple=True)
    return out

def bounds(tier):
    return "reachability forms with <=2 transient states and <=2 actions each, 3-state DTMCs (also 0.1-0.2-0.7 rows), 3-state MDPs with <=4 actions (quick: uniform rows only, Dirac rows only), structured families with <=9 states; block structures with 13 and 55 states; every subset of states (resp. state-action pairs, <=2^6 of them, above 43 patterns) as support, both certificate forms; entries of the certificate between 1e-300 and 1e6" 

def check(case, ctx):
    from switss.problem import Subsystem
    base = case["spec"]; n = len(base["a"]); mdp = base["t"] == "mdp"
    L = {"init": [0], "odd": [s for s in range(n) if s % 2]}
    for s in range(n): L["s%d" % s] = [s]
    AL = {"a%d_%d" % (s, i): [[s, i]] for s in range(n) for i in range(len(base["a"][s]))}; AL["first"] = [[s, 0] for s in range(n)]
    rew = sum(p[0] for p in [case["pres"]["sp"]] if p) % 2 == 0 or n > 3          # with and without rewards
    R = [[str(F(7 * s + 3 * i + 1, 4)) for i in range(len(base["a"][s]))] for s in range(n)] + [["1/2"], ["3"]]
    spec = dict(base, L=L, AL=AL if mdp else {}, R=R if rew else None)
    b = M.Built(spec, case["pres"]); rf = b.rf(); N = n + 2; before = snap_model(rf.system); rows = [r for r in b.rows if r[0] < n]
    ctx.state(str(spec["a"]), str(case["pres"]))
    def supports(m):
        if m <= 6: return list(itertools.product((0, 1), repeat=m))
        return [tuple(1 if (k >> (i % 7)) & 1 or i == 0 else 0 for i in range(m)) for k in range(1, 128, 3)]
    for form in ("min", "max"):
        D = n if form == "min" else len(rows)
        for kk, sup in enumerate(supports(D)):
            cert = np.array([x * (0.25 + 0.5 * ((i + kk) % 3) if kk % 2 else SIZES[(i + kk // 2) % len(SIZES)]) for i, x in enumerate(sup)])
            if form == "min": S = {s for s in range(n) if sup[b.S[s]]}
            else: S = {r[0] for k, r in enumerate(rows) if sup[k]}
            cc = cert.copy()
            sub0 = Subsystem(rf, cert, form, ignore_consistency_checks=True); ctx.op()
            mask = [bool(x) for x in sub0.subsystem_mask]; exp = [False] * n
            for s in S: exp[b.S[s]] = True
            what = "%s form, support %s: " % (form, sup)
            if mask != exp: return ctx.fail(what + "subsystem_mask is %s" % mask)
            if 0 not in S: continue
            # is the restriction a reachability form itself?
            sub_acts = [[{t if (t in S or t >= n) else n + 1: 0 for t in M.succs(d)} for d in spec["a"][s]] for s in range(n)]
            e = {s: set().union(*[set(d) for d in sub_acts[s]]) for s in S}; bk = {}
            for s in e:
                for t in e[s]: bk.setdefault(t, set()).add(s)
            good = ref.reach(e, [0]) | {n + 1} >= S | {n} and ref.reach(bk, [n]) >= S
            sub = Subsystem(rf, cert, form, ignore_consistency_checks=not good)
            q = sub.subsys; ctx.op(); ctx.trace(); ctx.outcome(form, len(S), good)
            if (cert != cc).any(): return ctx.fail(what + "the certificate vector was changed")
            if snap_model(rf.system) != before: return ctx.fail(what + "the supersystem was changed")
            m = q.system; NN = m.N
            if NN != len(S) + 2 or type(m) is not type(rf.system): return ctx.fail(what + "the subsystem has %d states of type %s" % (NN, type(m).__name__))
            if m.C != sum(len(spec["a"][s]) for s in S) + 2: return ctx.fail(what + "the subsystem has %d rows" % m.C)
            # identify states by their own labels
            to = {}
            for s in S:
                x = m.states_by_label["s%d" % s]
                if len(x) != 1: return ctx.fail(what + "label of state %d is on %s" % (s, x))
                to[s] = next(iter(x))
            to[n] = NN - 2; to[n + 1] = NN - 1
            if len(set(to.values())) != NN: return ctx.fail(what + "states are merged")
            for l in L:
                if set(m.states_by_label[l]) != {to[s] for s in L[l] if s in S}: return ctx.fail(what + "states of label %s" % l)
            if set(m.states_by_label["rf_target"]) != {NN - 2} or set(m.states_by_label["rf_fail"]) != {NN - 1}: return ctx.fail(what + "goal/fail labels")
            tr = M.triples(m); ex = {}
            for s in S:
                for i, d in enumerate(spec["a"][s]):
                    for t, p in ref.dist(d).items():
                        k = (to[s], b.A[(s, i)][1], to[t] if t in S or t == n else NN - 1); ex[k] = ex.get(k, 0) + p
            ex[(NN - 2, 0, NN - 2)] = 1; ex[(NN - 1, 0, NN - 1)] = 1
            if set(tr) != set(ex): return ctx.fail(what + "transitions of the subsystem", missing=sorted(set(ex) - set(tr)), surplus=sorted(set(tr) - set(ex)))
            if any(abs(tr[k] - float(ex[k])) > 1e-12 for k in ex): return ctx.fail(what + "probabilities of the subsystem", got=str(tr), expected=str(ex))
            if mdp:
                for l in AL:
                    if set(m.actions_by_label[l]) != {(to[s], b.A[(s, i)][1]) for s, i in AL[l] if s in S}: return ctx.fail(what + "actions of label %s are %s" % (l, m.actions_by_label[l]))
            if not rew:
                if m.reward_vector is not None: return ctx.fail(what + "the subsystem has rewards %s" % m.reward_vector)
            else:
                rv = m.reward_vector
                if rv is None or len(rv) != m.C: return ctx.fail(what + "the rewards of the subsystem are %s" % (rv,))
                er = {(to[s], b.A[(s, i)][1]): float(F(R[s][i])) for s in S for i in range(len(base["a"][s]))}; er[(NN - 2, 0)] = 0.5; er[(NN - 1, 0)] = 3
                gr = {k: float(rv[m.index_by_state_action[k]]) for k in er}
                if gr != er: return ctx.fail(what + "rewards of the subsystem: %s, expected %s" % (gr, er))
            if q.initial != to[0]: return ctx.fail(what + "initial state")
            if kk % 4 == 1 and n <= 3:
                rr = real_ref(m, {NN - 2})
                for md, v in (("min", rr.prmin()), ("max", rr.prmax())):
                    if v[to[0]] > exact(base, md)[0] + F(1, 10**9): return ctx.fail(what + "Pr^%s of the subsystem is larger than that of the supersystem" % md)
