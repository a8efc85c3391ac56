"""C16: treaps are sets, for every insertion sequence and every priority sequence."""
from common import *
import os, sys, ctypes, subprocess, functools

ASSUMPTIONS = ["the priorities come from libc rand(), whose answers the harness dictates", "the driver is compiled against the current treaps.pxd; renamed treap functions would leave only the maximal end component check (C14)"]

def setup(scratch):
    """compiles the driver against the sources under test"""
    d = os.path.join(scratch, "treapdrv"); os.makedirs(d, exist_ok=True)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    open(os.path.join(d, "treap_driver.pyx"), "w").write(open(os.path.join(here, "treap_driver.pyx")).read())
    open(os.path.join(d, "setup.py"), "w").write(
        "from setuptools import setup, Extension\nfrom Cython.Build import cythonize\n"
        "setup(name='d', ext_modules=cythonize([Extension('treap_driver',['treap_driver.pyx'])], include_path=[%r], quiet=True))\n" % os.environ["MC_SRC"])
    r = subprocess.run([sys.executable, "-W", "ignore", "setup.py", "-q", "build_ext", "--inplace"], cwd=d, capture_output=True, text=True,
                       env=dict(os.environ, CFLAGS=os.environ.get("MC_CFLAGS", "-O1 -g0")))
    open(os.path.join(d, "log"), "w").write(r.stdout + r.stderr)
    if r.returncode: open(os.path.join(d, "failed"), "w").write("1"); return
    sys.path.insert(0, d)

def ranks(L):
    """all weak orders of L things, as sequences of ranks"""
    return [p for p in itertools.product(range(L), repeat=L) if set(p) == set(range(len(set(p))))] if L else [()]

@functools.lru_cache(None)
def ranks_c(L): return ranks(L)

KEYMAPS = [[0, 1, 2, 3, 4], [-7, -1, 0, 5, 2 ** 31 - 1], [-2 ** 31, -3, 4, 8, 1000000], [10, 20, 30, 40, 50]]

def cases(tier):
    out = []; q = tier == "quick"
    for K, L in [(2, 1), (2, 2), (3, 3), (4, 4)] + ([(4, 5)] if q else [(5, 5), (4, 6)]):
        seqs = list(itertools.product(range(K), repeat=L)); step = 16 if L < 5 else 4
        # only sequences in which new keys may appear in any order, all of them
        out += [dict(kind="small", K=K, L=L, lo=i, hi=min(i + step, len(seqs))) for i in range(0, len(seqs), step)]
    for n in (7, 16, 33, 100, 300, 1000) + (() if q else (3000, 20000)):
        for order in ("up", "down", "zigzag", "mix", "dup", "blocks"):
            for pr in ("const", "up", "down", "lcg", "lcg2", "alt", "saw"): out.append(dict(kind="long", n=n, order=order, pr=pr))
    for K, L in ((3, 3),) if q else ((3, 3), (3, 4)): out += [dict(kind="two", K=K, L=L, i=i) for i in range(K ** L)]
    return out

def bounds(tier):
    return "all insertion sequences of length <=%s over %s keys x all weak orders of the priorities (ties included), membership of every key, size and dump after every insertion and of the treap built from the array; pairs of treaps filled in turn; 6 insertion orders x 7 priority patterns with up to %d keys" % (
        ("5", "4", 1000) if tier == "quick" else ("6", "4 (5 for length 5)", 20000))

_lib = None
def script(seq):
    global _lib
    if _lib is None: _lib = ctypes.CDLL(os.environ["MC_SHIM"])
    buf = (ctypes.c_int * max(1, len(seq)))(*seq); script.buf = buf
    _lib.mc_rand_script(buf, ctypes.c_long(len(seq)))

def bad(r, want, universe):
    if r is None: return "the input array was changed"
    size, mem, arr = r
    if size != len(want): return "size %s, %d keys were inserted" % (size, len(want))
    if mem != [k in want for k in universe]: return "membership %s over %s, inserted %s" % (mem, universe, sorted(want))
    if sorted(map(str, arr)) != sorted(map(str, want)): return "dump %s, inserted %s" % (arr, sorted(want))
    return None

@functools.lru_cache(None)
def seqs_of(K, L): return list(itertools.product(range(K), repeat=L))

def check(case, ctx):
    try: import treap_driver as T
    except ImportError:
        ctx.note("driver could not be built"); return
    if case["kind"] == "small":
        K, L = case["K"], case["L"]
        for j in range(case["lo"], case["hi"]):
            km = KEYMAPS[j % 4]; keys = [km[x] for x in seqs_of(K, L)[j]]; ctx.state(tuple(keys))
            universe = sorted(set(km[:K] + [min(km[:K]) - 1 if min(km) > -2 ** 31 else -2 ** 31 + 1, km[K - 1] - 1]))
            want = [set(keys[:i + 1]) for i in range(L)]
            for rk in ranks_c(L):
                script([3 * r + 1 for r in rk]); ctx.trace(); ctx.op(L)
                for i, r in enumerate(T.inserts(keys, universe)):
                    e = bad(r, want[i], universe)
                    if e: return ctx.fail("inserting %s with priorities %s, after %d insertions: %s" % (keys, rk, i + 1, e))
            for rk in ranks_c(L)[::max(1, len(ranks_c(L)) // 13)]:
                script([3 * r + 1 for r in rk]); ctx.trace(); ctx.op()
                e = bad(T.from_arr(keys, universe), want[-1], universe)
                if e: return ctx.fail("treap from array %s with priorities %s: %s" % (keys, rk, e))
            ctx.outcome(L, len(want[-1]))
    elif case["kind"] == "long":
        n = case["n"]; o = case["order"]
        keys = {"up": list(range(n)), "down": list(range(n))[::-1], "zigzag": [i // 2 if i % 2 else n - i // 2 for i in range(n)],
                "mix": [(i * 37 + 11) % (n + 1 if (n + 1) % 37 else n + 2) for i in range(n)], "dup": [i % (n // 3 + 1) for i in range(n)],
                "blocks": [(i % 4) * n + i // 4 for i in range(n)]}[o]
        x = 12345; pr = []
        for i in range(n):
            x = (x * 1103515245 + 12345) % 2 ** 31
            pr.append({"const": 5, "up": i, "down": n - i, "lcg": x, "lcg2": x >> 28, "alt": i % 2, "saw": i % 7}[case["pr"]])
        universe = list(range(-2, 4 * n + 2)) if o == "blocks" else list(range(-2, n + 4))
        script(pr); ctx.trace(); ctx.op(n); ctx.state(n, o)
        if n <= 100:
            for i, r in enumerate(T.inserts(keys, universe)):
                e = bad(r, set(keys[:i + 1]), universe)
                if e: return ctx.fail("order %s, priorities %s, n=%d, after %d insertions: %s" % (o, case["pr"], n, i + 1, e))
        for f in (T.last, T.from_arr):
            script(pr); e = bad(f(keys, universe), set(keys), universe)
            if e: return ctx.fail("order %s, priorities %s, n=%d, %s: %s" % (o, case["pr"], n, f.__name__, e))
        ctx.outcome("long", o)
    else:
        K, L = case["K"], case["L"]; S = seqs_of(K, L); ka = list(S[case["i"]]); universe = list(range(-1, K + 1))
        for kb in S:
            for rk in ranks_c(3):
                script(list(rk)); ctx.op(); ctx.trace()
                a, b, b2 = T.two(ka, list(kb), universe)
                e = bad(a, set(ka), universe) or bad(b, set(kb), universe) or bad(b2, set(kb), universe)
                if e: return ctx.fail("two treaps %s and %s, priorities %s: %s" % (ka, kb, rk, e))
        ctx.outcome("two")
    script([])
