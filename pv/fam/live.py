"""Models in which much is unused: what is live and what is dead is known from the model alone (C21)."""
import numpy as np
from ..gen import *
from .. import pb, ref
from .control import Sub, vi, body_ops
from .layers import ri

RANDOM = ("RandomUniformLike", "RandomNormalLike", "RandomUniform", "RandomNormal")


def subs(n):
    for v in n.attrs.values():
        v = v.v if isinstance(v, pb.A) else v
        if isinstance(v, pb.Graph):
            yield v


def free(g):
    """Names a graph takes from outside, whether or not its outputs depend on them."""
    own = {v.name for v in g.inputs} | {t.name for t in g.inits}
    out = set()
    for n in g.nodes:
        u = {i for i in n.inputs if i}
        for s in subs(n):
            u |= free(s)
        out |= u - own
        own |= set(n.outputs)
    return out | ({v.name for v in g.outputs} - own)


def liveness(g, outs):
    """(live value names, live nodes) of a graph with the given output names; bodies count as a whole."""
    live, nodes = set(outs), []
    for n in reversed(g.nodes):
        if any(o in live for o in n.outputs if o):
            nodes.append(n)
            live |= {i for i in n.inputs if i}
            for s in subs(n):
                live |= free(s)
    return live, nodes


def magic(rng, shape=(2, 3)):
    return np.asarray(rng.uniform(-2, 2, shape), np.float32)


def live(rng):
    m = M(rng)
    m.opset = max(m.opset, 17)
    sh = (2, 3)
    xs = [m.inp(f32, sh) for _ in range(ri(rng, 1, 3))]
    cond = m.inp(b1, [])
    pool, weights, tail = list(xs), {}, []

    def w(shape=sh, p=0.3):
        if weights and chance(rng, p):
            c = [k for k, v in weights.items() if v.shape == tuple(shape)]
            if c:
                return pick(rng, c)
        a = magic(rng, shape)
        n = m.const(a, how=pick(rng, ["raw", "raw", "typed", "node"]))
        weights[n] = a
        return n

    def val():
        # recent values and values nobody used yet are preferred about half of the time
        return pick(rng, pool[-3:]) if chance(rng, 0.5) else pick(rng, pool)

    def branch(k, caps, depth):
        s = Sub(m)
        new = body_ops(rng, s, caps, ri(rng, k, k + 2), sh)
        if depth and chance(rng, 0.4):
            o = [m.name("z") for _ in range(ri(rng, 1, 2))]
            s.node("If", [cond], outs=o, then_branch=branch(len(o), caps + new, depth - 1), else_branch=branch(len(o), caps[-1:], depth - 1))
            new += o if chance(rng, 0.7) else o[-1:]
        use = new[-k:]
        return pb.Graph(s.nodes, [], [vi(o, f32, sh) for o in use], s.inits, name="b")
    for _ in range(ri(rng, 4, 16)):
        r = rng.random()
        a = val()
        if r < 0.15:
            o = m.node(pick(rng, ["Relu", "Tanh", "Neg", "Abs", "Sigmoid"]), [a])
        elif r < 0.25:
            o = m.node(pick(rng, ["Add", "Mul", "Sub", "Max"]), [a, val()])
        elif r < 0.42:
            o = m.node(pick(rng, ["Add", "Mul", "Sub"]), [a, w(pick(rng, [sh, sh, (3,), (1, 3)]))])
        elif r < 0.5:
            o = m.node("Tanh", [m.node("MatMul", [a, w((3, 3))])])
        elif r < 0.6:
            # a node of several outputs, of which any may stay unused
            sp = m.node("Split", [a, m.cs([1, 1, 1])], nout=3, axis=1)
            k = pick(rng, [0, 1, 2])
            o = m.node("Add", [sp[k], val()])
            if chance(rng, 0.3):
                pool.append(m.node("Sub", [val(), sp[(k + 1) % 3]]))
        elif r < 0.66:
            v, i = m.node("TopK", [a, m.cs([2])], nout=2, axis=1)
            if chance(rng, 0.5):
                i = m.node("Cast", [i], to=1)
                o = m.node("Add", [m.node("ReduceSum", [i, m.cs([1])], keepdims=1), val()])
            else:
                o = m.node("Add", [m.node("ReduceSum", [v, m.cs([1])], keepdims=1), val()])
        elif r < 0.72:
            # two nodes that look alike but draw different values; their product with zero is known
            op = pick(rng, RANDOM)
            k = m.node(op, [a]) if op.endswith("Like") else m.node(op, [], shape=[2, 3], dtype=1)
            if chance(rng, 0.6):
                k2 = m.node(op, [a]) if op.endswith("Like") else m.node(op, [], shape=[2, 3], dtype=1)
                k = m.node("Sub", [k, k2])
            o = m.node("Add", [m.node("Mul", [k, m.const(np.zeros(sh, np.float32))]), val()])
        elif r < 0.86:
            k = ri(rng, 1, 3)
            o = [m.name("y") for _ in range(k)]
            caps = [val() for _ in range(2)] + ([w()] if chance(rng, 0.5) else [])
            m.node("If", [cond], outs=o, then_branch=branch(k, caps, 1), else_branch=branch(k, [val()] + ([w()] if chance(rng, 0.3) else []), 1))
            o = pick(rng, o) if chance(rng, 0.5) else o
        elif r < 0.96:
            s = Sub(m)
            k = ri(rng, 1, 2)
            it, ci, cv = m.name("i"), m.name("c"), [m.name("s") for _ in range(k)]
            caps = [val()] + ([w()] if chance(rng, 0.4) else [])
            new = body_ops(rng, s, cv + caps, ri(rng, k, k + 2), sh)
            bounded = [s.node("Tanh", [v]) for v in new[-k:]]
            co = s.node("Identity", [ci])
            scans = [new[0]] if chance(rng, 0.4) else []
            so = [s.node("Identity", [v]) for v in scans]
            body = pb.Graph(s.nodes, [vi(it, i64), vi(ci, b1)] + [vi(c, f32, sh) for c in cv], [vi(co, b1)] + [vi(v, f32, sh) for v in bounded] + [vi(v, f32, sh) for v in so], s.inits, name="l")
            o = [m.name("y") for _ in range(k + len(so))]
            m.node("Loop", [m.const(np.array(ri(rng, 1, 3), np.int64)), m.const(np.array(True))] + [val() for _ in range(k)], outs=o, body=body)
            if so:
                # the leading axis is the known finding loop-scan-concat of C05
                t = m.node("Reshape", [o[-1], m.cs([-1, 2, 3])])
                tail.append(t)
                if chance(rng, 0.4):
                    pool.append(m.node("Add", [m.node("ReduceSum", [t, m.cs([0])], keepdims=0), val()]))
            o = pick(rng, o[:k]) if chance(rng, 0.5) else o[:k]
        else:
            w()  # nobody uses it (until a later draw does)
            continue
        pool += o if isinstance(o, list) else [o]
    made = [p for p in pool if p not in xs] + tail
    if not made:
        raise Skip
    outs = [str(v) for v in rng.permutation(made)[:ri(rng, 1, 3)]]
    if chance(rng, 0.3):
        outs.append(made[-1]) if made[-1] not in outs else 0
    if chance(rng, 0.1):
        outs.append(pick(rng, xs))
    m.out(*outs)
    c = m.build(rtol=1e-3, atol=1e-3)
    g = c.model.graph
    lv, nodes = liveness(g, outs)
    # names used by anything at all
    used = set(outs)
    for n in g.nodes:
        used |= {i for i in n.inputs if i}
        for s in subs(n):
            used |= free(s)
    c.dead = {k: v for k, v in weights.items() if k not in lv}
    c.unused = {k: v for k, v in weights.items() if k not in used}
    c.livew = {k: v for k, v in weights.items() if k in lv}
    c.nrandom = sum(n.op in RANDOM for n in nodes)
    c.nlive, c.ndead = len(nodes), len(g.nodes) - len(nodes)
    return c




GENS = [(live, 1)]
PINS = []
