"""C13: the interface of a model: unused inputs, pass-through outputs, repeated outputs, declared types."""
import numpy as np
from ..gen import *
from .. import pb
from .layers import ri

DTS = [f32, f32, f32, i64, i32, b1, f64, u8, i8, f16]
DIRECT_CONST = True
REPEAT = True


def iface(rng):
    m = M(rng)
    pool = []
    for _ in range(ri(rng, 1, 5)):
        dt = pick(rng, DTS)
        sh = rshape(rng, 0, 4, 1, 3)
        pool.append((m.inp(dt, symbolic(rng, m, sh, 0.3), -3 if dt != u8 else 0, 3), dt, len(sh)))
    ins = list(pool)
    k = ri(rng, 0, len(ins))
    used = [ins[int(j)] for j in rng.permutation(len(ins))[:max(1, k)]]
    outs = []
    for n, dt, r in used:
        for _ in range(ri(rng, 0, 2)):
            if r == 0:
                if dt == b1:
                    continue
                v = m.node("Add", [n, m.const(np.asarray(1, dt))])  # other operators on native scalars: see C06
            elif dt == b1:
                v = m.node("Not", [n])
            elif dt in (f32, f64, f16) and chance(rng, 0.7):
                v = m.node(pick(rng, ["Neg", "Abs", "Relu", "Identity", "Tanh"]), [n])
            elif dt in (i64, i32, i8) and chance(rng, 0.4):
                v = m.node(pick(rng, ["Neg", "Abs", "Identity"]), [n])
            else:
                v = m.node("Add", [n, m.const(np.asarray(1, dt))])
            n = v
            pool.append((v, dt, r))
    def const():
        return m.const(vals(rng, pick(rng, [f32, i64, b1, f64, i32]), tuple(rshape(rng, 1, 3, 1, 3))))
    made = [p[0] for p in pool if p not in ins]
    n = ri(rng, 1, 5)
    for _ in range(n):
        r = rng.random()
        if r < 0.5 and made:
            outs.append(pick(rng, made))
        elif r < 0.7:
            outs.append(pick(rng, ins)[0])
        elif r < 0.78 and DIRECT_CONST:
            outs.append(const())
        elif r < 0.84:
            outs.append(m.node("Identity", [const() if DIRECT_CONST else pick(rng, ins)[0]]))
        elif r < 0.92:
            outs.append(m.node("Identity", [pick(rng, pool)[0]]))
        elif made:
            outs.append(pick(rng, made))
    if not outs:
        outs.append(pick(rng, pool)[0])
    if not REPEAT:
        outs = list(dict.fromkeys(outs))
    m.out(*outs)
    return m.build(rtol=1e-3, atol=1e-3)


def shapes_out(rng):
    """Outputs that are shapes, sizes or scalars, declared as the tensors they are."""
    m = M(rng)
    x = m.inp(f32, symbolic(rng, m, rshape(rng, 1, 4, 1, 3)))
    outs = [m.node("Shape", [x])]
    if chance(rng, 0.5):
        outs.append(m.node("Gather", [outs[0], m.const(np.asarray(0, i64))], axis=0))
    if chance(rng, 0.5):
        outs.append(m.node("ReduceSum" if m.opset >= 13 else "ReduceMean", [x], keepdims=0))
    if chance(rng, 0.5):
        outs.append(m.node("Relu", [x]))
    outs = [outs[int(i)] for i in rng.permutation(len(outs))]
    m.out(*outs[:ri(rng, 1, len(outs))])
    return m.build(rtol=1e-3, atol=1e-3)


def multi(rng):
    """Nodes with several outputs of which some are graph outputs, in another order."""
    m = M(rng)
    n = ri(rng, 2, 4)
    x = m.inp(f32, [ri(rng, 1, 3), 2 * n])
    ys = m.node("Split", [x, m.cs([2] * n)], n, axis=1)
    k = m.node("TopK", [pick(rng, ys), m.cs([1])], 2, axis=-1)
    pool = list(ys) + list(k)
    o = [pool[int(i)] for i in rng.permutation(len(pool))][:ri(rng, 1, len(pool))]
    m.out(*o)
    return m.build(rtol=1e-3)


GENS = [(iface, 8), (shapes_out, 2), (multi, 2)]
PINS = {}
