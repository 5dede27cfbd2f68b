"""Random graphs mixing many operators, with shared values, unused nodes and odd names."""
import numpy as np
from ..gen import *
from .. import pb
from .layers import ri

UNARY = ["Relu", "Tanh", "Sigmoid", "Neg", "Abs", "Sign", "Ceil", "Floor", "Round", "Identity", "Softplus", "Erf", "Identity"]


def dag(rng, nmax=14, names=None, unused=True):
    """Mostly rank-2/3 float tensors, integer tensors and booleans, all shapes known to the generator."""
    m = M(rng)
    if names:
        m.name = names
    pool = []  # (name, dtype, shape)

    def have(dt, rank=None):
        c = [p for p in pool if p[1] == dt and (rank is None or len(p[2]) == rank)]
        return pick(rng, c[-5:] if chance(rng, 0.6) else c) if c else None

    def new(n, dt, sh):
        pool.append((n, dt, tuple(int(d) for d in sh)))
        return pool[-1]
    base = (ri(rng, 1, 3), ri(rng, 1, 4))
    for _ in range(ri(rng, 1, 3)):
        sh = base if chance(rng, 0.7) else (ri(rng, 1, 3),) + base
        new(m.inp(f32, list(sh), -2, 2), f32, sh)
    if chance(rng, 0.4):
        new(m.inp(i64, list(base), -4, 4), i64, base)
    if chance(rng, 0.3):
        new(m.inp(b1, list(base)), b1, base)
    if chance(rng, 0.3):
        new(m.const(vals(rng, f32, base)), f32, base)
    used = set()
    for _ in range(ri(rng, 3, nmax)):
        a = have(f32)
        n, _, sh = a
        r = rng.random()
        ins = [n]
        if r < 0.2:
            new(m.node(pick(rng, UNARY), ins), f32, sh)
        elif r < 0.42:
            b = have(f32)
            try:
                rs = np.broadcast_shapes(sh, b[2])
            except ValueError:
                continue
            ins.append(b[0])
            new(m.node(pick(rng, ["Add", "Sub", "Mul", "Max", "Min"]), ins), f32, rs)
        elif r < 0.5:
            k = pick(rng, [(), sh[-1:], sh, (1,) * len(sh)])
            new(m.node(pick(rng, ["Add", "Mul", "Sub"]), [n, m.const(vals(rng, f32, k))]), f32, sh)
        elif r < 0.56:
            p = [int(v) for v in rng.permutation(len(sh))]
            new(m.node("Transpose", ins, perm=p), f32, [sh[i] for i in p])
        elif r < 0.62:
            tgt = pick(rng, [(-1,), sh[:1] + (-1,), (1,) + sh, sh])
            if len(tgt) == 1 or chance(rng, 0.5):
                o = m.node("Reshape", [n, m.cs(list(tgt))])
            else:
                o = m.node("Reshape", [n, m.cs(list(tgt))])
            s2 = np.zeros(sh).reshape(tgt).shape
            new(o, f32, s2)
        elif r < 0.68:
            b = have(f32, len(sh))
            if b and b[2][:-1] == sh[:-1]:
                ins.append(b[0])
                new(m.node("Concat", ins, axis=len(sh) - 1), f32, sh[:-1] + (sh[-1] + b[2][-1],))
        elif r < 0.73:
            new(m.node("Softmax", ins, axis=-1), f32, sh)
        elif r < 0.78:
            kd = pick(rng, [0, 1])
            if len(sh) < 2:
                kd = 1
            op = pick(rng, ["ReduceMean", "ReduceMax", "ReduceSum"])
            ax = ri(rng, 0, len(sh) - 1)
            if m.opset >= 18 or (op == "ReduceSum" and m.opset >= 13):
                o = m.node(op, [n, m.cs([ax])], keepdims=kd)
            else:
                o = m.node(op, [n], axes=[ax], keepdims=kd)
            new(o, f32, [d for i, d in enumerate(sh) if i != ax] if not kd else [1 if i == ax else d for i, d in enumerate(sh)])
        elif r < 0.84:
            b = have(f32)
            if b[2] == sh:
                ins.append(b[0])
                c = new(m.node(pick(rng, ["Greater", "Less"]), ins), b1, sh)
                if chance(rng, 0.5):
                    new(m.node("Where", [c[0], n, b[0]] if chance(rng, 0.5) else [c[0], b[0], n]), f32, sh)
        elif r < 0.88:
            i = have(i64) or have(b1)
            if i:
                ins = [i[0]]
                new(m.node("Cast", ins, to=pb.FLOAT), f32, i[2])
            else:
                new(m.node("Cast", [m.node("Round", ins)], to=pb.INT64), i64, sh)
        elif r < 0.93:
            N = ri(rng, 1, 4)
            if len(sh) >= 2:
                new(m.node("MatMul", [n, m.const(vals(rng, f32, (sh[-1], N)))]), f32, sh[:-1] + (N,))
        elif r < 0.97 and sh[-1] > 1:
            k = ri(rng, 1, sh[-1] - 1)
            a1, a2 = m.node("Split", [n, m.cs([k, sh[-1] - k])], 2, axis=len(sh) - 1)
            new(a1, f32, sh[:-1] + (k,))
            if chance(rng, 0.6):
                new(a2, f32, sh[:-1] + (sh[-1] - k,))
        else:
            new(m.node("Unsqueeze", [n, m.cs([0])]), f32, (1,) + sh)
    made = [p for p in pool if any(p[0] in nd.outputs for nd in m.nodes)]
    made = [p for p in made if not any(p[0] in nd.outputs and nd.op == "Constant" for nd in m.nodes)]
    if not made:
        raise Skip
    k = ri(rng, 1, min(3, len(made)))
    outs = [made[-1]] + [pick(rng, made) for _ in range(k - 1)]
    seen = []
    for o in outs:
        if o[0] not in seen:
            seen.append(o[0])
    m.out(*seen)
    return m.build(rtol=2e-3, atol=1e-3)


GENS = [(dag, 1)]
PINS = {}
