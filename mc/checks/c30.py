"""C30: native code (graph, treaps, stack, tree_decomp) under the address sanitizer, with all its allocations counted."""
from common import *
import os, ctypes, gc
from checks import c14, c15, c16, c28

TECHNIQUE = "the exhaustive explorations of C14, C15, C16 and C28 (and of iterators that outlive their model) repeated on the real native code compiled with the address sanitizer and with counted allocations; judged are memory errors and blocks that stay allocated, not results"
LEVEL_NOTE = "Complete within the stated bounds for the executions of those checks: every read, write and release of native code is observed by the address sanitizer (red zones of its allocator; an access that jumps over a red zone into another live block is not seen)."
ASSUMPTIONS = ["native code allocates with malloc, calloc and realloc; blocks from other allocators are checked for memory errors where the address sanitizer knows them but not counted",
               "graph_tool, dd and more_itertools as in C28", "the tree algorithm's release of memory is judged for calls that return a result"]

def setup(scratch):
    c28.setup(scratch); c16.setup(scratch)

def cases(tier):
    th = tier == "thorough"; out = [dict(k="iter", n=n) for n in (1, 2, 3, 4)]
    a = [c for c in c14.cases(tier) if c["fam"] != "deep"]; b = [c for c in c15.cases(tier) if c["fam"] != "deep"]
    c = c16.cases(tier); d = c28.cases(tier)
    if not th: a, b, c, d = a[::3], b[::4], [x for i, x in enumerate(c) if x["kind"] == "long" or i % 6 == 0], [x for i, x in enumerate(d) if x["k"] != "all" or len(x["spec"]["a"]) < 3 or i % 3 == 0]
    deep = [dict(fam="deep", n=20000, step=x, tier=tier) for x in (1, -1)]
    for k, l in (("c14", a + deep), ("c15", b + [dict(fam="deep", shape=x, n=20000) for x in ("line", "enil", "ring", "back")]), ("c16", c), ("c28", d)): out += [dict(k=k, c=x) for x in l]
    return out

def bounds(tier):
    return "the cases of C14, C15, C16 and C28 (%s; long paths with 20000 states), and partially consumed iterators over successors and predecessors that outlive their model, for 1 to 4 states" % ("all of the thorough tier" if tier == "thorough" else "quick tier: every third group of structures of C14, every fourth of C15, all long and every sixth group of short treap sequences, every third 3-state model of C28 and all larger ones")

_lib = None
def live():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["MC_SHIM"])
        for f in (_lib.mc_live, _lib.mc_total): f.restype = ctypes.c_long
    gc.collect(); return _lib.mc_live()

def iterators(case):
    """iterators that are created, advanced by some steps and dropped or used further after their model is gone"""
    n = case["n"]
    import itertools as it
    from switss.model import DTMC
    rows = list(it.product((0, 1), repeat=n))[1:]
    for R in it.product(rows, repeat=n) if n <= 2 else [tuple(rows[(i * 5 + j) % len(rows)] for i in range(n)) for j in range(len(rows))]:
        P = [[x / sum(r) for x in r] for r in R]
        for s in range(n):
            for q in ("successors", "predecessors"):
                for steps in (0, 1, n):
                    for rest in (False, True):
                        m = DTMC(P); i = iter(getattr(m, q)(s)); got = list(it.islice(i, steps)); del m; gc.collect(0)
                        if rest: got += list(i)
                        del i

MODS = dict(c14=c14, c15=c15, c16=c16, c28=c28)
class Quiet:
    """takes the place of the context: results are the business of the other checks"""
    def __getattr__(self, name): return lambda *a, **k: None
    tier = property(lambda self: __import__("harness").TIER)
def one(case):
    try:
        if case["k"] == "iter": iterators(case)
        else: MODS[case["k"]].check(case["c"], Quiet())
    except Exception as e: return type(e).__name__
    return "ok"

def check(case, ctx):
    before = live(); t0 = _lib.mc_total(); r = one(case); grown = live() - before; ctx.op(max(1, _lib.mc_total() - t0)); ctx.trace(); ctx.state(str(case)); ctx.outcome(case["k"], r)
    if grown > 0 and r == "ok":
        # blocks that belong to objects that are kept on purpose appear once
        more = []
        for _ in range(3):
            before = live(); one(case); more.append(live() - before)
        if all(g > 0 for g in more): return ctx.fail("native code does not release %d of the blocks that it allocates (again %s when the same is repeated)" % (grown, more))
        ctx.note("kept blocks", grown)
