"""validates the reference semantics against brute force over all memoryless policies"""
import itertools, models as M, ref
from fractions import Fraction as F
def brute(r, mode):
    best = None; n = r.n
    for pol in itertools.product(*[range(len(A)) for A in r.acts]):
        q = ref.Ref([[r.acts[s][pol[s]]] for s in range(n)], r.goal); v = q.prmax()
        best = v if best is None else [max(x, y) if mode == "max" else min(x, y) for x, y in zip(best, v)]
    return best
k = 0
for spec in M.rf_enum(2, "dh")[::3] + M.rf_enum(3, "d", 2)[::20] + [s for s in M.families() if len(s["a"]) <= 6]:
    r = ref.of_spec(spec); assert r.prmax() == brute(r, "max"), spec; assert r.prmin() == brute(r, "min"), spec; k += 1
print("reference values agree with brute force on", k, "models")
import random
random.seed(1)
for _ in range(3000):
    n = random.randint(1, 6); acts = [[frozenset(random.sample(range(n), random.randint(1, min(n, 2)))) for _ in range(random.randint(1, 2))] for _ in range(n)]
    c, p = ref.mecs(acts)
    # second implementation
    acts2 = acts + [[frozenset([n + i])] for i in range(7 - n)] if n < 7 else acts
    c2, p2 = ref.mecs(acts2); assert c == c2[:n] and p == p2[:n]
print("mec references agree")
