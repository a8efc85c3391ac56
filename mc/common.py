"""helpers shared by the checks"""
import warnings; warnings.simplefilter("ignore")
import copy, itertools, json
from fractions import Fraction as F
import numpy as np
import models as M, ref

TOL = 2e-6            # what a solver's feasibility tolerance (1e-7 .. 1e-6) can move a result on the enumerated models

def close(x, y, tol=TOL): return abs(float(x) - float(y)) <= tol

def snap_model(sys):
    """observable content of a model"""
    return (tuple(sorted(M.triples(sys).items())), tuple(sorted(((int(s), int(a)), int(i)) for (s, a), i in sys.index_by_state_action.items())),
            tuple(sorted((str(l), tuple(sorted(v))) for l, v in sys.states_by_label.items() if v)),
            tuple(sorted((str(l), tuple(sorted(v))) for l, v in sys.actions_by_label.items() if v)),
            None if sys.reward_vector is None else tuple(float(x) for x in sys.reward_vector), sys.C, sys.N)

def real_ref(sys, goals):
    """exact reference semantics of a real model (probabilities as the exact values of its floats)"""
    acts = [[] for _ in range(sys.N)]
    by = {}
    for (s, a, t), p in M.triples(sys).items(): by.setdefault((s, a), {})[t] = F(p)
    for (s, a), d in sorted(by.items()): acts[s].append(d)
    for s in range(sys.N):
        if s in goals or not acts[s]: acts[s] = [{s: F(1)}]
    return ref.Ref(acts, set(goals))

def rotate(items, pres_of):
    """pairs every item with one presentation so that all presentations are used in turn"""
    return [(x, pres_of(x)[i % len(pres_of(x))]) for i, x in enumerate(items)]

_pres = {}
def pres_for(n, rf=True):
    if (n, rf) not in _pres: _pres[(n, rf)] = M.presentations(n, rf)
    return _pres[(n, rf)]

def rf_cases(specs, presall=False, simple=False):
    """(spec, presentation) cases: all covering presentations of each, or one each in turn"""
    out = []
    for i, s in enumerate(specs):
        ps = M.simple_presentations(len(s["a"])) if simple else pres_for(len(s["a"]))
        if presall: out += [dict(spec=s, pres=p) for p in ps]
        else: out.append(dict(spec=s, pres=ps[i % len(ps)]))
    return out

def rf_triple_problems(sys, init, goal, fail):
    """independent check of the conditions of a reachability form; returns a list of violated conditions"""
    bad = []; tr = M.triples(sys); N, C = sys.N, sys.C
    if goal != N - 2: bad.append("goal is not state N-2")
    if fail != N - 1: bad.append("fail is not state N-1")
    for s, row, nm in ((goal, C - 2, "goal"), (fail, C - 1, "fail")):
        acts = {(x, a) for (x, a) in sys.index_by_state_action if x == s}
        if len(acts) != 1 or {t for (x, a, t) in tr if x == s} != {s}: bad.append(nm + " is not absorbing with a single action")
        elif sys.index_by_state_action[next(iter(acts))] != row: bad.append("row of %s is not at the documented position" % nm)
    e = {}; b = {}
    for (s, a, t) in tr: e.setdefault(s, set()).add(t); b.setdefault(t, set()).add(s)
    if ref.reach(e, [init]) | {fail} != set(range(N)): bad.append("a state is not reachable from the initial state")
    if ref.reach(b, [goal]) | {fail} != set(range(N)): bad.append("a state does not reach goal")
    return bad

def reach_value(acts, goal, mode):
    r = ref.Ref(acts, {goal}); return r.prmin() if mode == "min" else r.prmax()

def exact(spec, mode):
    r = ref.of_spec(spec); return r.prmin() if mode == "min" else r.prmax()

def pos(vec): return [i for i, x in enumerate(vec) if x > 0]
