"""python -m pv.fam FAMILY [N] [SEED] [variants]: runs a family and prints every disagreement."""
import importlib, os, sys, time
from collections import Counter
from .. import e2e, gen

fam, n, seed, var = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 200, int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[4] if len(sys.argv) > 4 else "s"
only = sys.argv[5].split(",") if len(sys.argv) > 5 else None
mod = importlib.import_module("pv.fam." + fam)
t = time.time()
cs = gen.make(mod.GENS, seed, n, only=only)
print("cases", len(cs), time.time() - t)
S = e2e.Session(os.path.join(e2e.BUILD, "dev_" + fam))
print("built", time.time() - t)
runs = S.run(cs, tuple(var))
c, g = Counter(), Counter()
for r in runs:
    j = e2e.judge(r)
    c[j and j[0]] += 1
    if j:
        g[r.case.gen, j[0]] += 1
        print(f"## {r.key} {r.case.gen} [{j[0]}] {r.case.desc[:400]}\n     {j[1][:700]}")
print(S.stats, time.time() - t)
print(c)
print(g)
