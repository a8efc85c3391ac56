"""C13: witnesses for expected rewards against brute force over all sets of states."""
from common import *

ASSUMPTIONS = ["thresholds are midpoints of the intervals between values that sets of states attain, and one above the largest",
               "leaving the set yields no further reward: transitions to states outside go to a state without reward"]

BIG = ("5000", "2500/7", "1/20", "0", "40")

def cases(tier):
    th = tier == "thorough"; out = []
    for n, kinds, mt in ((1, "dht", 0), (2, "dh", 3), (2, "dh", 0), (3, "dh", 3)) + (((2, "dht", 3), (3, "dh", 4)) if th else ()):
        for i, a in enumerate(M.rew_structures(n, kinds, 2, mt)):
            m = sum(map(len, a))
            if n == 2 and mt == 0 and m <= 3: continue
            for j, R in enumerate(M.rewards_for(a, m <= 2)):
                ps = pres_for(n); out.append(dict(a=a, R=R, t="dtmc" if m == n else "mdp", pres=ps[(i + j) % len(ps)]))
    for i, a in enumerate(M.rew_structures(1, "dht", 2, 0) + M.rew_structures(2, "dh", 2, 3)):          # rewards of other sizes
        n = len(a); m = sum(map(len, a)); q = [BIG[(i + j) % len(BIG)] for j in range(m)]; it = iter(q); ps = pres_for(n)
        out.append(dict(a=a, R=[[next(it) for _ in A] for A in a], t="dtmc" if m == n else "mdp", pres=ps[i % len(ps)]))
    for f in M.families(tier):
        a = M.nofail(f); n = len(a)
        if n <= (8 if th else 6) and M.ecfree(dict(a=a)) and M.rf_valid(a):
            for j, R in enumerate(M.rewards_for(a, False)): out.append(dict(a=a, R=R, t=f["t"], pres=M.simple_presentations(n)[j % 3]))
    for f in M.large(2, 9, ec=False):
        a = M.nofail(f); n = len(a)
        if M.ecfree(dict(a=a)) and M.rf_valid(a):
            for j, R in enumerate(list(M.rewards_for(a, False))[:3]): out.append(dict(a=a, R=R, t=f["t"], pres=M.simple_presentations(n)[j % 3], big=1))
    return out

def bounds(tier):
    return "all end-component-free reward structures with <=2 transient states and <=2 actions each and 3 states with <=%d actions%s, structured families with <=%d states (13 and 55 states: status and reward of the answers only), rewards 0, 1, 5/2 (and between 1/20 and 5000; all assignments for <=2 rows, covering ones above); a threshold in every interval between values of sets; MILPExact and QSHeur (2 iterations), both modes" % (
        (4, ", thirds", 8) if tier == "thorough" else (3, "", 6))

def big(case, ctx, spec, form, inv):
    """larger forms: the answers reach the threshold, if anything does; MILPExact is no larger than QSHeur"""
    from switss.problem import MILPExact, QSHeur
    n = len(case["a"])
    def value(S): return ref.restrict(spec, S).rewards(mode)[0] if 0 in S else F(0)
    for mode in ("min", "max"):
        e = value(set(range(n)))
        for thr in (e * F(1, 3), e * F(9, 10), e * F(11, 10)):
            what = "%s mode, threshold %s (all states: %s): " % (mode, float(thr), float(e)); ctx.outcome(mode, thr <= e)
            hr = list(QSHeur(iterations=2, solver="cbc").solveiter(form, float(thr), mode)); ctx.op(len(hr)); ctx.trace()
            mr = [MILPExact(solver="cbc").solve(form, float(thr), mode)] if n <= 13 else []
            if thr > e or e == 0:
                if e and any(r.status == "success" or r.subsystem is not None for r in hr + mr): return ctx.fail(what + "%s although no set reaches the threshold" % [r.status for r in hr + mr])
                continue
            for r in hr + mr:
                if r.status != "success": return ctx.fail(what + "status %s" % r.status)
                S = {inv[i] for i in range(n) if r.subsystem.subsystem_mask[i]}; v = value(S)
                if v < thr: return ctx.fail(what + "set %s only yields %s" % (sorted(S), float(v)))
                if mr and len(S) < sum(map(bool, mr[0].subsystem.subsystem_mask)): return ctx.fail(what + "a set with %d states, MILPExact returned %d" % (len(S), sum(map(bool, mr[0].subsystem.subsystem_mask))))

def materialised(a, R, b, form, sub, mode, S):
    """the model of a returned subsystem is the restriction to S, with the same rewards"""
    from switss.problem import Subsystem
    q = Subsystem(form, sub.certificate, mode, ignore_consistency_checks=True).subsys.system; n = len(a); NN = len(S) + 2
    if (q.N, q.C) != (NN, sum(len(a[s]) for s in S) + 2): return "%d states and %d rows" % (q.N, q.C)
    to = {s: set(q.states_by_label["s%d" % s]) for s in S}
    if any(len(x) != 1 for x in to.values()): return "states %s" % to
    to = {s: min(x) for s, x in to.items()}; to[n] = NN - 2; ex = {(NN - 2, 0, NN - 2): 1, (NN - 1, 0, NN - 1): 1}; er = {}
    for s in S:
        for i, d in enumerate(a[s]):
            x = b.A[(s, i)][1]; er[(to[s], x)] = float(F(R[s][i]))
            for t, p in ref.dist(d).items(): k = (to[s], x, to.get(t, NN - 1)); ex[k] = ex.get(k, 0) + p
    tr = M.triples(q)
    if set(tr) != set(ex) or any(abs(tr[k] - float(ex[k])) > 1e-12 for k in ex): return "transitions %s, expected %s" % (tr, {k: float(v) for k, v in ex.items()})
    if q.reward_vector is None: return "no rewards"
    gr = {k: float(q.reward_vector[q.index_by_state_action[k]]) for k in er}
    if gr != er: return "rewards %s, expected %s" % (gr, er)

def check(case, ctx, solver="cbc"):
    from switss.model import RewardReachabilityForm as RR
    from switss.problem import MILPExact, QSHeur
    a = case["a"]; n = len(a)
    spec = dict(a=a, rf=False, tail=1, t=case["t"], L=dict({"s%d" % k: [k] for k in range(n)}, init=[0]), AL={}, R=case["R"])
    b = M.Built(spec, case["pres"]); form = RR.fromsystem(b.model(), "init"); inv = {b.S[s]: s for s in range(n)}
    ctx.state(str(a), str(case["R"]), str(case["pres"]))
    if case.get("big"): return big(case, ctx, spec, form, inv)
    for mode in ("min", "max"):
        vals = ref.subset_values(spec, mode, rew=True)
        for thr in ref.thresholds(vals.values(), None):
            if min(abs(v - thr) for v in vals.values()) < F(1, 1000): continue
            ok = [s for s, v in vals.items() if v >= thr]; what = "%s mode, threshold %s: " % (mode, float(thr))
            best = min(map(len, ok), default=None); ctx.outcome(mode, best)
            res = MILPExact(solver=solver).solve(form, float(thr), mode); hr = list(QSHeur(iterations=2, solver=solver).solveiter(form, float(thr), mode)); ctx.op(1 + len(hr)); ctx.trace()
            if not ok:
                if res.status != "infeasible" or res.subsystem is not None: return ctx.fail(what + "MILPExact: %s although no set reaches the threshold" % res.status)
                if len(hr) != 1 or hr[0].status == "success": return ctx.fail(what + "QSHeur: %s although no set reaches the threshold" % [r.status for r in hr])
                continue
            for r in [res] + hr:
                if r.status != "success": return ctx.fail(what + "status %s although %d states suffice" % (r.status, best))
                S = {inv[i] for i in range(n) if r.subsystem.subsystem_mask[i]}
                if vals[frozenset(S)] < thr: return ctx.fail(what + "set %s only yields %s" % (sorted(S), float(vals[frozenset(S)])))
                if r in (res, hr[-1]) and 0 in S:
                    e = materialised(a, case["R"], b, form, r.subsystem, mode, S); ctx.op()
                    if e: return ctx.fail(what + "subsystem of %s: %s" % (sorted(S), e))
            if not 1 <= len(hr) <= 2: return ctx.fail(what + "%d results" % len(hr))
            S = {inv[i] for i in range(n) if res.subsystem.subsystem_mask[i]}
            if len(S) != best or abs(res.value - best) > 1e-6: return ctx.fail(what + "MILPExact returns %d states and value %s, minimum is %d" % (len(S), res.value, best))
