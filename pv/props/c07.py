import importlib
import numpy as np
from .. import e2e, famcheck, gen, mutate

OTHER = [("elementwise", 71), ("datamove", 72), ("linalg", 73), ("layers", 74), ("dag", 79), ("simp", 77), ("control", 75)]


def run(ctx):
    famcheck.run(ctx, [("simp", 1.0, 7)], 2200, 25000)
    # models of every family with near-duplicate nodes: simplified and unsimplified code side by side
    n = ctx.pick(200, 2800)
    for f, num in OTHER:
        cs = gen.make(importlib.import_module("pv.fam." + f).GENS, ctx.seed, n, fam=num)
        ds = []
        for i, c in enumerate(cs):
            rng = np.random.default_rng([ctx.seed, num, i, 7])
            kind = "noops" if i % 4 == 3 else "neardup"
            d = getattr(mutate, kind)(rng, c)
            ctx.counts[kind + ("_made" if d else "_skipped")] += 1
            ds.append(d or c)
        S = ctx.session("d" + f)
        for b in range(0, len(ds), 1000):
            part = ds[b:b + 1000]
            for i, c in enumerate(part):
                c.id = f"d{f}{b + i}"
            rs = S.run(part, ("s", "n"))
            plain = {r.case.id: e2e.judge(r) for r in rs if r.variant == "n"}
            for r in rs:
                if r.variant == "s":
                    if plain[r.case.id] is None:
                        ctx.judge_run(r)
                    else:
                        ctx.counts["not_judged_unsimplified_fails"] += 1
        for k, v in S.stats.items():
            ctx.counts["models_" + k if k in ("generated", "compiled", "executed") else k] += v
    ctx.rule += (" Models of the other families get copies of nodes (equal, or differing in operand order, an attribute, an operand or a constant) or chains of no-op nodes behind values; where the unsimplified code "
                 "agrees with the reference, the simplified code has to agree too.")
