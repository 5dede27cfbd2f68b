"""C17: generated source compiles and loads: names, sharing, literals, size."""
import importlib, os
import numpy as np
from .. import e2e, famcheck, gen, mutate, pb
from ..gen import *
from ..fam import dag

FAMS = [("elementwise", 171, 3), ("datamove", 172, 5), ("linalg", 173, 4), ("layers", 174, 3), ("control", 175, 3), ("simp", 176, 2), ("dag", 177, 3), ("iface", 178, 2), ("literals", 179, 5)]


def big(rng, n):
    """A long chain with heavy reuse of earlier values."""
    m = M(rng)
    pool = [m.inp(f32, [2, 3]) for _ in range(3)]
    for i in range(n):
        op = pick(rng, ["Add", "Sub", "Mul", "Relu", "Tanh", "Neg", "Max", "Where", "Concat", "MatMul"])
        a = pool[-1] if chance(rng, 0.7) else pick(rng, pool)
        b = pick(rng, pool)
        if op == "Where":
            v = m.node("Where", [m.node("Greater", [a, b]), a, b])
        elif op == "Concat":
            v = m.node("Slice", [m.node("Concat", [a, b, a], axis=0), m.cs([1]), m.cs([3]), m.cs([0])])
        elif op == "MatMul":
            v = m.node("Tanh", [m.node("MatMul", [a, m.const(vals(rng, f32, (3, 3)))])])
        elif op in ("Relu", "Tanh", "Neg"):
            v = m.node(op, [a])
        else:
            v = m.node(op, [a, b])
            if op == "Mul":
                v = m.node("Tanh", [v])
        pool.append(v)
        if len(pool) > 40:
            pool.pop(int(rng.integers(3, 20)))
    outs = [pool[-1]] + [pick(rng, pool[3:]) for _ in range(4)]
    m.out(*dict.fromkeys(outs))
    c = m.build(rtol=1e-2, atol=1e-2)
    c.desc = f"chain of {n} nodes with reuse"
    c.gen = "big"
    return c


def every_name(seed):
    """Each hostile name once as an input, an initializer, a node output and a model output."""
    names = list(dict.fromkeys(mutate.KEYWORDS + mutate.LOCALS + mutate.LOCALS2 + mutate.SPECIAL))
    rng = np.random.default_rng([seed, 1790])
    cs = []
    for role in range(4):
        order = [names[i] for i in rng.permutation(len(names))]
        for k in range(0, len(order), 12):
            m = M(rng)
            mp = {}
            for n in order[k:k + 12]:
                x = m.inp(f32, [2])
                w = m.const(vals(rng, f32, (2,)))
                y = m.node("Add", [x, w])
                z = m.node("Tanh", [y])
                m.out(z)
                mp[(x, w, y, z)[role]] = n
            c = m.build()
            c.gen = "every_name"
            c = mutate.rename(c, mp)
            c.gen = "every_name"
            cs.append(c)
    return cs


def run(ctx):
    per = ctx.pick(75, 1500)
    mods = [importlib.import_module("pv.fam." + f) for f, _, _ in FAMS]
    pc = famcheck.pins(ctx, mods)
    if pc:
        ctx.run_cases(pc, name="pin")
    cs = []
    for (f, num, w), mod in zip(FAMS, mods):
        for i, c in enumerate(gen.make(mod.GENS, ctx.seed, per * w, fam=num)):
            rng = np.random.default_rng([ctx.seed, num, i])
            r = rng.random()
            if rng.random() < 0.25:
                q = mutate.noops(rng, c)
                ctx.counts["noops_made" if q else "noops_skipped"] += 1
                c = q or c
            d = mutate.hostile(rng, c) if r < 0.75 else c
            d.embed = rng.random() < 0.3
            d.gen = f + ("+noops" if hasattr(c, "noops") else "") + ("+names" if d is not c else "")
            cs.append(d)
    for i, n in enumerate([300, 700, 1500] if ctx.quick else [300, 700, 1500, 4000, 2500, 1000]):
        cs.append(big(np.random.default_rng([ctx.seed, 170, i]), n))
    cs += every_name(ctx.seed)
    ctx.run_cases(cs, ("s", "n"), name="h", judge=judge)
    ctx.rule = ("Random models of all operator families, most with values and nodes renamed to hostile names (keywords, the importer's own names, local variables of generated code, names that collide after sanitizing, "
                "non-identifiers; each of these names also once in every role), literals at the extremes (infinities, NaN, subnormals, limits of the integer types), chains of no-op nodes behind inputs, constants and results, and chains of up to 1500 nodes with shared values; every generated file is compiled as a module against "
                "the public API stand-in, constructed (loading its weights) and run, and its results compared with the reference. Non-trivial: distinct model with at least one output element.")


def judge(r):
    j = e2e.judge(r)
    if j and j[0] == "genfail" and getattr(r.case, "noops", False):
        return None  # a constant behind a no-op node may be refused where a constant operand is needed
    return j
