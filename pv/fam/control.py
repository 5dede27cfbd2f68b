"""C05: If, Loop and Scan."""
import numpy as np
from ..gen import *
from .. import pb
from .layers import ri


def vi(n, dt=f32, sh=()):
    return pb.VI(n, dt, list(sh))


class Sub:
    """A subgraph under construction; shares the name counter of its model."""

    def __init__(self, m):
        self.m, self.nodes, self.inits = m, [], []

    def node(self, op, ins, nout=1, outs=None, **at):
        o = outs or [self.m.name("z") for _ in range(nout)]
        self.nodes.append(pb.Node(op, ins, o, **at))
        return o[0] if len(o) == 1 else o

    def const(self, arr):
        n = self.m.name("k")
        if chance(self.m.rng, 0.5):
            self.nodes.append(pb.Node("Constant", [], [n], value=pb.Tensor("", np.asarray(arr))))
        else:
            self.inits.append(pb.Tensor(n, np.asarray(arr)))
        return n


def body_ops(rng, s, vs, n, shape, sc=()):
    """n random float operations over the values vs (all of the given shape); returns the new values."""
    new = []
    for _ in range(n):
        pool = vs + new
        r = rng.random()
        a = pick(rng, new) if new and chance(rng, 0.6) else pick(rng, pool)
        if sc and chance(rng, 0.35):
            new.append(s.node(pick(rng, ["Add", "Mul", "Sub"]), [a, pick(rng, sc)]))
            continue
        if r < 0.3:
            o = s.node(pick(rng, ["Relu", "Tanh", "Sigmoid", "Neg", "Abs"]), [a])
        elif r < 0.6:
            o = s.node(pick(rng, ["Add", "Sub", "Mul", "Max", "Min"]), [a, pick(rng, pool)])
        elif r < 0.8:
            o = s.node(pick(rng, ["Add", "Mul"]), [a, s.const(vals(rng, f32, shape))])
        elif r < 0.9 and len(shape):
            o = s.node("Add", [a, s.const(vals(rng, f32, shape[-1:]))])
        else:
            c = s.node("Greater", [a, pick(rng, pool)])
            o = s.node("Where", [c, a, pick(rng, pool)])
        new.append(o)
    return new


def cond_in(rng, m):
    """A boolean condition in one of the ways models provide it."""
    r = rng.random()
    if r < 0.5:
        return m.inp(b1, [] if chance(rng, 0.6) else [1])
    x = m.inp(f32, [2, 2])
    s = m.node("ReduceSum", [x], keepdims=0)
    return m.node(pick(rng, ["Greater", "Less"]), [s, m.const(np.array(0, f32))])


def fix(m, vs, p=0.5):
    """Sometimes derives the captured value by an outer node, so that it is not a graph input."""
    return [m.node("Relu", [v]) if chance(m.rng, p) else v for v in vs]


def if_(rng):
    m = M(rng)
    sh = [2, ri(rng, 1, 3)]
    c = cond_in(rng, m)
    xs = fix(m, [m.inp(f32, sh) for _ in range(ri(rng, 1, 3))])
    if chance(rng, 0.4):
        xs.append(m.const(vals(rng, f32, sh)))
    k = ri(rng, 1, 2)
    outs = [m.name("y") for _ in range(k)]
    br = {}
    for b in ("then_branch", "else_branch"):
        s = Sub(m)
        new = body_ops(rng, s, xs, ri(rng, k, k + 2), sh)
        use = new[-k:]
        br[b] = pb.Graph(s.nodes, [], [vi(o, f32, sh) for o in use], s.inits, name=b)
    m.node("If", [c], outs=outs, **br)
    post(rng, m, outs, xs)
    return m.build(rtol=1e-3, atol=1e-4)


def post(rng, m, outs, xs):
    """Uses the results (and captured values again) after the control-flow node."""
    for o in outs:
        r = rng.random()
        if r < 0.5:
            m.out(o)
        elif r < 0.8:
            m.out(m.node("Add", [o, pick(rng, xs)]))
        else:
            m.out(m.node("Tanh", [o]), o)


def if_const(rng):
    """Branches that only give back a captured or a constant value."""
    m = M(rng)
    sh = [2, ri(rng, 1, 3)]
    c = cond_in(rng, m)
    xs = [m.node("Relu", [m.inp(f32, sh)]) for _ in range(2)]
    o = m.name("y")
    br = {}
    for b in ("then_branch", "else_branch"):
        s = Sub(m)
        if chance(rng, 0.5):
            r = s.node("Identity", [pick(rng, xs)])
        else:
            r = s.node("Add", [s.const(vals(rng, f32, sh)), pick(rng, xs)])
        br[b] = pb.Graph(s.nodes, [], [vi(r, f32, sh)], s.inits, name=b)
    m.node("If", [c], outs=[o], **br)
    m.out(o)
    if chance(rng, 0.5):
        m.out(m.node("Add", xs))
    return m.build(rtol=1e-3, atol=1e-4)


def if_nested(rng):
    m = M(rng)
    sh = [2, ri(rng, 1, 3)]
    c, c2 = cond_in(rng, m), cond_in(rng, m)
    xs = fix(m, [m.inp(f32, sh) for _ in range(ri(rng, 1, 3))])
    o = m.name("y")
    br = {}
    for b in ("then_branch", "else_branch"):
        s = Sub(m)
        new = body_ops(rng, s, xs, ri(rng, 1, 2), sh)
        if b == "then_branch" or chance(rng, 0.4):
            ib = {}
            for bb in ("then_branch", "else_branch"):
                t = Sub(m)
                nn = body_ops(rng, t, xs + new, ri(rng, 1, 2), sh)
                ib[bb] = pb.Graph(t.nodes, [], [vi(nn[-1], f32, sh)], t.inits, name=bb)
            r = s.node("If", [c2], **ib)
            new.append(r)
            if chance(rng, 0.4):
                new.append(s.node("Neg", [r]))
        br[b] = pb.Graph(s.nodes, [], [vi(new[-1], f32, sh)], s.inits, name=b)
    m.node("If", [c], outs=[o], **br)
    post(rng, m, [o], xs)
    return m.build(rtol=1e-3, atol=1e-4)


def body_outs(rng, new, sv, n):
    """The values of the loop-carried outputs: sometimes state variables, swapped or passed on."""
    r = rng.random()
    if r < 0.12:
        so = [pick(rng, new + sv) for _ in range(n)]
    elif r < 0.24 and n > 1:
        so = [new[-1]] + list(sv[:n - 1])
    elif r < 0.3 and n > 1:
        so = list(rng.permutation(sv))
    else:
        so = [new[-1 - i] for i in range(n)]
    return [str(x) for x in so]


def loop(rng):
    m = M(rng)
    sh = [2, ri(rng, 1, 3)]
    st = [m.inp(f32, sh, -1, 1) for _ in range(ri(rng, 1, 2))]
    if chance(rng, 0.3):
        st = fix(m, st)
    if chance(rng, 0.3):
        st[-1] = m.const(vals(rng, f32, sh, -1, 1))
    cap = fix(m, [m.inp(f32, sh, -1, 1) for _ in range(ri(rng, 0, 2))])
    scan = chance(rng, 0.45)
    lo = 1 if scan else 0
    r = rng.random()
    if r < 0.5:
        trip = m.inp(i64, [], lo, 4)
    elif r < 0.6:
        trip = m.node("Gather", [m.node("Shape", [st[0]]), m.const(np.array(ri(rng, 0, 1), i64))], axis=0)
    elif r < 0.7:
        trip = m.node("ReduceSum", [m.inp(i64, [2], lo, 2)], keepdims=0)
    else:
        trip = m.const(np.array(ri(rng, lo, 4), i64))
    r = rng.random()
    if r < 0.45:
        cond = m.const(np.array(True))
    elif r < 0.6 and not scan:
        cond = m.inp(b1, [])
    else:
        cond = ""
    s = Sub(m)
    it, ci = m.name("i"), m.name("c")
    sv = [m.name("s") for _ in st]
    vs = sv + cap
    if chance(rng, 0.4):
        f = s.node("Cast", [it], to=pb.FLOAT)
        vs = vs + [s.node("Add", [pick(rng, sv), f])]
    new = body_ops(rng, s, vs, ri(rng, len(st), len(st) + 2), sh)
    r = rng.random()
    if r < 0.5:
        co = s.node("Identity", [ci])
    elif r < 0.65:
        co = s.const(np.array(True))
    else:
        q = s.node("ReduceSum", [new[-1]], keepdims=0)
        co = s.node("Less", [q, s.const(np.array(rng.uniform(-1, 5), f32))])
    so = body_outs(rng, new, sv, len(st))
    extra = [pick(rng, new + sv) for _ in range(ri(rng, 1, 2))] if scan else []
    if extra and chance(rng, 0.2) and len(vs) > len(sv) + len(cap):
        extra[-1] = f
    g = pb.Graph(s.nodes, [vi(it, i64), vi(ci, b1)] + [vi(v, f32, sh) for v in sv],
                 [vi(co, b1)] + [vi(v, f32, sh) for v in so + extra], s.inits, name="body")
    outs = [m.name("y") for _ in range(len(st) + len(extra))]
    m.node("Loop", [trip, cond] + st, outs=outs, body=g)
    m.out(*outs[:len(st)])
    for o in outs[len(st):]:  # the leading axis is the known finding loop-scan-concat
        m.out(m.node("Reshape", [o, m.const(np.array([-1], i64))]))
    if cap and chance(rng, 0.5):
        m.out(m.node("Add", [cap[0], st[0]]))
    return m.build(rtol=1e-3, atol=1e-3)


def loop_if(rng):
    """A conditional inside a loop, and a loop inside a conditional."""
    m = M(rng)
    sh = [2, 2]
    x = m.inp(f32, sh, -1, 1)
    cap = fix(m, [m.inp(f32, sh, -1, 1)])
    inner = chance(rng, 0.5)
    if inner:
        s = Sub(m)
        it, ci, sv = m.name("i"), m.name("c"), m.name("s")
        q = s.node("ReduceSum", [sv], keepdims=0)
        c = s.node("Less", [q, s.const(np.array(rng.uniform(-1, 1), f32))])
        ib = {}
        for bb in ("then_branch", "else_branch"):
            t = Sub(m)
            nn = body_ops(rng, t, [sv] + cap, ri(rng, 1, 2), sh)
            ib[bb] = pb.Graph(t.nodes, [], [vi(nn[-1], f32, sh)], t.inits, name=bb)
        r = s.node("If", [c], **ib)
        co = s.node("Identity", [ci])
        g = pb.Graph(s.nodes, [vi(it, i64), vi(ci, b1), vi(sv, f32, sh)], [vi(co, b1), vi(r, f32, sh)], s.inits, name="body")
        m.out(m.node("Loop", [m.const(np.array(ri(rng, 1, 4), i64)), m.const(np.array(True)), x], body=g))
    else:
        c = cond_in(rng, m)
        br = {}
        for b in ("then_branch", "else_branch"):
            s = Sub(m)
            if b == "then_branch":
                t = Sub(m)
                it, ci, sv = m.name("i"), m.name("c"), m.name("s")
                nn = body_ops(rng, t, [sv] + cap, ri(rng, 1, 3), sh)
                co = t.node("Identity", [ci])
                g = pb.Graph(t.nodes, [vi(it, i64), vi(ci, b1), vi(sv, f32, sh)], [vi(co, b1), vi(nn[-1], f32, sh)], t.inits, name="body")
                r = s.node("Loop", [s.const(np.array(ri(rng, 1, 4), i64)), s.const(np.array(True)), x], body=g)
            else:
                r = body_ops(rng, s, [x] + cap, 1, sh)[-1]
            br[b] = pb.Graph(s.nodes, [], [vi(r, f32, sh)], s.inits, name=b)
        m.out(m.node("If", [c], **br))
    return m.build(rtol=1e-3, atol=1e-3)


def scan(rng):
    m = M(rng)
    T = ri(rng, 1, 4)
    sh = [2, ri(rng, 1, 3)]
    st = [m.inp(f32, sh, -1, 1) for _ in range(ri(rng, 0 if SCAN0 else 1, 2))]
    ns = ri(rng, 1, 2)
    ax = [0] * ns
    at = {"num_scan_inputs": ns}
    if chance(rng, 0.3):
        ax = [ri(rng, 0, 2) for _ in range(ns)]
        at["scan_input_axes"] = ax
    xs = []
    for a in ax:
        d = list(sh)
        d.insert(a, T)
        xs.append(m.inp(f32, d, -1, 1))
    if chance(rng, 0.35):
        at["scan_input_directions"] = [ri(rng, 0, 1) for _ in range(ns)]
    cap = fix(m, [m.inp(f32, sh, -1, 1) for _ in range(ri(rng, 0, 1))])
    s = Sub(m)
    sv = [m.name("s") for _ in st]
    xv = [m.name("e") for _ in xs]
    no = ri(rng, 0 if st else 1, 2)
    new = body_ops(rng, s, sv + xv + cap, ri(rng, len(st) + no, len(st) + no + 1), sh)
    so = body_outs(rng, new, sv, len(st))
    eo = [pick(rng, new + sv + xv) if chance(rng, 0.4) else new[i] for i in range(no)]
    if no:
        if chance(rng, 0.3):
            at["scan_output_axes"] = [ri(rng, 0, 2) for _ in range(no)]
        if chance(rng, 0.3):
            at["scan_output_directions"] = [ri(rng, 0, 1) for _ in range(no)]
    g = pb.Graph(s.nodes, [vi(v, f32, sh) for v in sv + xv], [vi(v, f32, sh) for v in so + eo], s.inits, name="body")
    outs = [m.name("y") for _ in range(len(st) + no)]
    m.node("Scan", st + xs, outs=outs, body=g, **at)
    m.out(*outs)
    return m.build(rtol=1e-3, atol=1e-3)


SCAN0 = True


def if_scalars(rng):
    """Captured scalars and shapes."""
    m = M(rng)
    sh = [ri(rng, 1, 3), ri(rng, 1, 3)]
    c = cond_in(rng, m)
    x = m.inp(f32, sh)
    if chance(rng, 0.4):
        x = m.node("Relu", [x])
    sc = []
    if chance(rng, 0.5):
        sc.append(m.inp(f32, []))
    if chance(rng, 0.5):
        sc.append(m.node("Cast", [m.node("Gather", [m.node("Shape", [x]), m.const(np.array(1, i64))])], to=pb.FLOAT))
    if chance(rng, 0.4) or not sc:
        sc.append(m.node("ReduceSum", [x], keepdims=0))
    shp = m.node("Shape", [x]) if chance(rng, 0.6) else None
    o = m.name("y")
    br = {}
    for b in ("then_branch", "else_branch"):
        s = Sub(m)
        vs = [x]
        if shp and chance(rng, 0.7):
            q = s.const(np.array([1], f32))
            vs.append(s.node("Expand", [q, shp]))
        new = body_ops(rng, s, vs, ri(rng, 1, 3), sh, sc)
        br[b] = pb.Graph(s.nodes, [], [vi(new[-1], f32, sh)], s.inits, name=b)
    m.node("If", [c], outs=[o], **br)
    m.out(o)
    if shp and chance(rng, 0.4):
        m.out(m.node("Cast", [shp], to=pb.FLOAT))
    return m.build(rtol=1e-3, atol=1e-3)


def loop_int(rng):
    """Loops over integer and scalar state."""
    m = M(rng)
    scal = chance(rng, 0.4)
    sh = [] if scal else [ri(rng, 1, 3)]
    dt = pick(rng, [i64, f32, i32])
    st = [m.inp(dt, sh, -2, 3) for _ in range(ri(rng, 1, 2))]
    s = Sub(m)
    it, ci = m.name("i"), m.name("c")
    sv = [m.name("s") for _ in st]
    pool = list(sv)
    if dt == i64 and chance(rng, 0.5):
        pool.append(it)
    new = []
    for _ in range(ri(rng, len(st), len(st) + 1)):
        a = pick(rng, sv + new)
        b = pick(rng, pool + new) if chance(rng, 0.6) else s.const(vals(rng, dt, sh, -2, 3))
        new.append(s.node(pick(rng, ["Add", "Sub", "Add"]), [a, b]))
    r = rng.random()
    if r < 0.5:
        co = s.node("Identity", [ci])
    else:
        q = new[-1] if scal else s.node("ReduceSum", [new[-1]], keepdims=0)
        co = s.node(pick(rng, ["Less", "Greater"]), [q, s.const(np.array(ri(rng, -3, 6), dt))])
    so = body_outs(rng, new, sv, len(st))
    g = pb.Graph(s.nodes, [vi(it, i64), vi(ci, b1)] + [vi(v, dt, sh) for v in sv],
                 [vi(co, b1)] + [vi(v, dt, sh) for v in so], s.inits, name="body")
    outs = [m.name("y") for _ in st]
    m.node("Loop", [m.const(np.array(ri(rng, 0, 4), i64)), m.const(np.array(True)) if chance(rng, 0.5) else ""] + st, outs=outs, body=g)
    m.out(*outs)
    return m.build()


def loop_grow(rng):
    """A loop-carried tensor that grows in every iteration."""
    m = M(rng)
    K = ri(rng, 1, 3)
    x = m.inp(f32, [1, K])
    y = m.inp(f32, [1, K])
    s = Sub(m)
    it, ci, sv = m.name("i"), m.name("c"), m.name("s")
    t = s.node(pick(rng, ["Relu", "Neg", "Tanh"]), [y])
    if chance(rng, 0.5):
        t = s.node("Mul", [t, s.node("Cast", [it], to=pb.FLOAT)])
    r = s.node("Concat", [sv, t] if chance(rng, 0.6) else [t, sv], axis=0)
    co = s.node("Identity", [ci])
    g = pb.Graph(s.nodes, [vi(it, i64), vi(ci, b1), vi(sv, f32, ["n%d" % ri(rng, 0, 9), K])],
                 [vi(co, b1), vi(r, f32, ["q", K])], s.inits, name="body")
    m.out(m.node("Loop", [m.const(np.array(ri(rng, 0, 4), i64)), "", x], body=g))
    return m.build(rtol=1e-3, atol=1e-4)


def if_pass(rng):
    """Branches whose output is a captured value, a constant of the branch, or one value given twice."""
    m = M(rng)
    sh = [2, ri(rng, 1, 3)]
    c = cond_in(rng, m)
    xs = fix(m, [m.inp(f32, sh) for _ in range(2)])
    k = ri(rng, 1, 2)
    outs = [m.name("y") for _ in range(k)]
    br = {}
    for b in ("then_branch", "else_branch"):
        s = Sub(m)
        r = rng.random()
        if r < 0.35:
            n = m.name("k")
            s.nodes.append(pb.Node("Constant", [], [n], value=pb.Tensor("", vals(rng, f32, sh))))
            use = [n] * k
        else:
            new = body_ops(rng, s, xs, 1, sh)
            use = [pick(rng, new) for _ in range(k)]
        br[b] = pb.Graph(s.nodes, [], [vi(o, f32, sh) for o in use], s.inits, name=b)
    m.node("If", [c], outs=outs, **br)
    post(rng, m, outs, xs)
    return m.build(rtol=1e-3, atol=1e-4)


def weights_in_branch(rng):
    """Layers with parameters inside branches; parameters from the outer graph and from the branch."""
    m = M(rng)
    c = cond_in(rng, m)
    K, N = ri(rng, 1, 3), ri(rng, 1, 3)
    x = m.inp(f32, [2, K])
    wo = m.const(vals(rng, f32, (K, N)))
    bo = m.const(vals(rng, f32, (N,)))
    br = {}
    for b in ("then_branch", "else_branch"):
        s = Sub(m)
        w = wo if chance(rng, 0.5) else s.const(vals(rng, f32, (K, N)))
        bb = bo if chance(rng, 0.5) else s.const(vals(rng, f32, (N,)))
        r = rng.random()
        if r < 0.4:
            y = s.node("MatMul", [x, w])
            y = s.node("Add", [y, bb])
        elif r < 0.7:
            y = s.node("Gemm", [x, w, bb])
        else:
            wt = s.const(vals(rng, f32, (N, K)))
            y = s.node("Gemm", [x, wt, bb], alpha=1.0, beta=1.0, transB=1)
        br[b] = pb.Graph(s.nodes, [], [vi(y, f32, [2, N])], s.inits, name=b)
    m.out(m.node("If", [c], **br))
    if chance(rng, 0.4):
        m.out(m.node("MatMul", [x, wo]))
    return m.build(rtol=1e-3, atol=1e-3)


def nest_level(rng, m, s, vis, bools, sh, depth):
    """Nodes of one level of a nest; the values it can see are those of all levels around it."""
    new = [s.const(vals(rng, f32, sh)) for _ in range(ri(rng, 0, 1))]
    new += body_ops(rng, s, vis + new, ri(rng, 0 if depth and new else 1, 2), sh)
    if chance(rng, 0.3):
        bools = bools + [s.const(np.array(chance(rng, 0.5)))]
    if chance(rng, 0.4):
        q = s.node("ReduceSum", [pick(rng, vis + new)], keepdims=0)
        bools = bools + [s.node(pick(rng, ["Greater", "Less"]), [q, s.const(np.array(rng.uniform(-1, 1), f32))])]
    for _ in range(ri(rng, 1, 2) if depth > 1 else min(depth, 1)):
        new += nest_inner(rng, m, s, vis + new, bools, sh, depth - 1)
        if chance(rng, 0.4):
            new += body_ops(rng, s, vis + new, 1, sh)
    return new


def nest_inner(rng, m, s, vis, bools, sh, depth):
    r = rng.random()
    if r < 0.55:
        k = ri(rng, 1, 2)
        br = {}
        for b in ("then_branch", "else_branch"):
            t = Sub(m)
            # a branch can be shallower than the nest goes
            new = nest_level(rng, m, t, vis, bools, sh, depth if chance(rng, 0.7) else 0)
            use = [pick(rng, vis) if chance(rng, PASS) else pick(rng, new[-2:]) for _ in range(k)]
            br[b] = pb.Graph(t.nodes, [], [vi(o, f32, sh) for o in use], t.inits, name=b)
        o = s.node("If", [pick(rng, bools)], nout=k, **br)
        return [o] if k == 1 else o
    t = Sub(m)
    sv = [m.name("s") for _ in range(ri(rng, 1, 2))]
    st = [pick(rng, vis) for _ in sv]
    if r < 0.85:
        it, ci = m.name("i"), m.name("c")
        new = nest_level(rng, m, t, vis + sv, bools, sh, depth)
        co = t.node("Identity", [ci])
        so = [pick(rng, new[-2:]) for _ in sv]
        so = [t.node(pick(rng, ["Tanh", "Sigmoid"]), [x]) for x in so]
        g = pb.Graph(t.nodes, [vi(it, i64), vi(ci, b1)] + [vi(v, f32, sh) for v in sv],
                     [vi(co, b1)] + [vi(v, f32, sh) for v in so], t.inits, name="body")
        o = s.node("Loop", [s.const(np.array(ri(rng, 1, 3), i64)), s.const(np.array(True)) if chance(rng, 0.5) else ""] + st,
                   nout=len(sv), body=g)
        return [o] if len(sv) == 1 else o
    x = s.const(vals(rng, f32, [ri(rng, 1, 3)] + list(sh)))
    e = m.name("e")
    new = nest_level(rng, m, t, vis + sv + [e], bools, sh, depth)
    so = [t.node("Tanh", [pick(rng, new[-2:])]) for _ in sv]
    g = pb.Graph(t.nodes, [vi(v, f32, sh) for v in sv + [e]], [vi(v, f32, sh) for v in so], t.inits, name="body")
    o = s.node("Scan", st + [x], nout=len(sv), body=g, num_scan_inputs=1)
    return [o] if len(sv) == 1 else o


# a value of an outer graph given back directly is not valid ONNX (runtimes ask for an Identity): branches never do it
PASS = 0.0


def nest(rng):
    """Control flow two or three levels deep whose subgraphs use values of every level around them."""
    m = M(rng)
    sh = [2, ri(rng, 1, 3)]
    xs = fix(m, [m.inp(f32, sh, -1, 1) for _ in range(ri(rng, 1, 2))])
    # constants of the outermost graph are often used by the innermost subgraph alone
    xs += [m.const(vals(rng, f32, sh)) for _ in range(ri(rng, 0, 2))]
    bools = [cond_in(rng, m) for _ in range(ri(rng, 1, 2))]
    new = nest_inner(rng, m, m, xs, bools, sh, ri(rng, 1, 2))
    for o in new:
        m.out(o)
    if chance(rng, 0.4):
        m.out(m.node("Add", [new[0], pick(rng, xs)]))
    return m.build(rtol=1e-3, atol=1e-3)


def loop_while(rng):
    """Loops that their condition ends: with and without a trip count, both in every way a number can be given."""
    m = M(rng)
    sh = [] if chance(rng, 0.2) else [ri(rng, 1, 3)]
    x = m.inp(f32, sh, -1, 1)
    cap = m.inp(f32, sh, 0.5, 1)
    k = pick(rng, ["none", "none", "const", "in", "sum", "big"])
    n = ri(rng, 0, 6)
    trip = {"none": lambda: "", "const": lambda: m.const(np.array(n, i64)), "in": lambda: m.inp(i64, [], 0, 6), "big": lambda: m.const(np.array(2**63 - 1, i64)),
            "sum": lambda: m.node("ReduceSum", [m.inp(i64, [2], 0, 3)], keepdims=0)}[k]()
    k = pick(rng, ["const", "in", "cmp"] + ["none"] * (k != "none"))
    cond = {"none": lambda: "", "const": lambda: m.const(np.array(chance(rng, 0.8))), "in": lambda: m.inp(b1, []),
            "cmp": lambda: m.node("Less", [m.node("ReduceMax", [x], keepdims=0) if sh else x, m.const(np.array(0.7, f32))])}[k]()
    s = Sub(m)
    it, ci, sv, cnt = (m.name(v) for v in "icsn")
    a = s.node("Add", [sv, cap if chance(rng, 0.5) else s.const(vals(rng, f32, sh, 0.5, 1))])
    lim = s.const(np.array(rng.uniform(-1, 4), f32))
    q = s.node(pick(rng, ["ReduceMax", "ReduceSum", "ReduceMin"]), [a], keepdims=0) if sh else a
    co = s.node("Less", [q, lim])
    if chance(rng, 0.3):
        co = s.node("Not", [s.node("Not", [co])])
    c2 = s.node("Add", [cnt, s.const(np.array(1, i64))])
    g = pb.Graph(s.nodes, [vi(it, i64), vi(ci, b1), vi(sv, f32, sh), vi(cnt, i64)], [vi(co, b1), vi(a, f32, sh), vi(c2, i64)], s.inits, name="body")
    outs = m.node("Loop", [trip, cond, x, m.const(np.array(0, i64))], nout=2, body=g)
    m.out(*outs)
    return m.build(rtol=1e-3, atol=1e-4)


def number(rng, s, x, dt, pool=()):
    """A number in one of the ways a graph holds numbers: native, on the device, from a shape, constant."""
    k = pick(rng, ["const", "red", "dim"] + ["pool"] * (2 * bool(pool)))
    if k == "const":
        return s.node("Abs", [s.const(np.asarray(ri(rng, -4, 4), dt))]) if chance(rng, 0.5) else s.const(np.asarray(ri(rng, -4, 4), dt))
    if k == "pool":
        v = pick(rng, list(pool))
        return s.node("Add", [v, s.const(np.asarray(1, dt))]) if chance(rng, 0.5) else s.node("Identity", [v])
    if k == "red":
        v = s.node(pick(rng, ["ReduceSum", "ReduceMax"]), [x], keepdims=0)
        return s.node("Cast", [s.node("Round", [v])], to=pb.INT64) if dt == i64 else v
    v = s.node("Gather", [s.node("Shape", [x]), s.const(np.array(ri(rng, -2, 1), i64))], axis=0)
    return v if dt == i64 else s.node("Cast", [v], to=pb.FLOAT)


def dims(rng, s, x, n, pool=()):
    """A list of n dimensions (a shape, a computed or a constant tensor)."""
    k = pick(rng, ["const", "shape", "calc", "concat"] + ["pool"] * (2 * bool(pool)))
    if k == "const":
        return s.node("Identity", [s.const(np.array([ri(rng, 1, 3) for _ in range(n)], i64))])
    if k == "pool":
        v = pick(rng, list(pool))
        return s.node(pick(rng, ["Add", "Mul"]), [v, s.const(np.array([ri(rng, 1, 2) for _ in range(n)], i64))]) if chance(rng, 0.6) else s.node("Identity", [v])
    if k == "concat":
        one = lambda: s.node("Unsqueeze", [number(rng, s, x, i64), s.const(np.array([0], i64))])
        return s.node("Concat", [one() for _ in range(n)], axis=0)
    v = s.node("Shape", [x])  # x has two dimensions
    v = s.node("Concat", [v] + [s.const(np.array([1], i64))] * (n - 2), axis=0) if n > 2 else s.node("Slice", [v, s.const(np.array([0], i64)), s.const(np.array([n], i64))])
    if k == "calc":
        v = s.node("Cast", [s.node("Mul", [s.node("Cast", [v], to=pb.FLOAT), s.const(np.array(2, f32))])], to=pb.INT64)
    return v


def kinds(rng):
    """Numbers and shapes that cross the borders of subgraphs in every representation."""
    m = M(rng, opset=pick(rng, [13, 18, 20]))
    x = m.inp(f32, [ri(rng, 1, 3), ri(rng, 1, 3)])
    outer = {f32: [m.inp(f32, [])] if chance(rng, 0.5) else [], i64: [m.inp(i64, [])] if chance(rng, 0.5) else []}
    nv = ri(rng, 1, 3)
    spec = [pick(rng, [(f32, None), (i64, None), (i64, ri(rng, 1, 3))]) for _ in range(nv)]
    val = lambda s, d, n, pool=(): number(rng, s, x, d, list(pool) + outer[d]) if n is None else dims(rng, s, x, n, pool)
    sh = lambda n: [] if n is None else [n]
    op = pick(rng, ["If", "Loop", "Scan"])
    names = [m.name("y") for _ in spec]
    if op == "If":
        br = {}
        c = cond_in(rng, m)
        for b in ("then_branch", "else_branch"):
            s = Sub(m)
            vs = [val(s, d, n) for d, n in spec]
            vs = [s.node("Identity", [v]) if v in vs[:i] or not any(v in q.outputs for q in s.nodes) else v for i, v in enumerate(vs)]
            br[b] = pb.Graph(s.nodes, [], [vi(v, d, sh(n)) for v, (d, n) in zip(vs, spec)], s.inits, name=b)
        m.node("If", [c], outs=names, **br)
    else:
        init = [val(m, d, n) for d, n in spec]
        s = Sub(m)
        sv = [m.name("s") for _ in spec]
        vs = []
        for (d, n) in spec:
            same = [v for v, t in zip(sv, spec) if t == (d, n)]
            vs.append(val(s, d, n, same))
        vs = [s.node("Identity", [v]) if v in vs[:i] or not any(v in q.outputs for q in s.nodes) else v for i, v in enumerate(vs)]
        ins = [vi(v, d, sh(n)) for v, (d, n) in zip(sv, spec)]
        outs = [vi(v, d, sh(n)) for v, (d, n) in zip(vs, spec)]
        if op == "Loop":
            it, ci = m.name("i"), m.name("c")
            co = s.node("Identity", [ci])
            g = pb.Graph(s.nodes, [vi(it, i64), vi(ci, b1)] + ins, [vi(co, b1)] + outs, s.inits, name="body")
            m.node("Loop", [m.const(np.array(ri(rng, 0, 3), i64)), ""] + init, outs=names, body=g)
        else:
            k = pick(rng, [0, 0, 1])
            xs = m.inp(f32, [ri(rng, 1, 4)] + [2] * k)
            e = m.name("e")
            extra = []
            for _ in range(ri(rng, 0, 2)):
                d, n = pick(rng, [(f32, None), (i64, None), (i64, 2), (f32, k)])
                if n == k and d == f32:
                    v, w = s.node("Neg", [e]), [2] * k
                else:
                    v, w = val(s, d, n), sh(n)
                    v = s.node("Identity", [v])
                extra.append(vi(v, d, w))
            g = pb.Graph(s.nodes, ins + [vi(e, f32, [2] * k)], outs + extra, s.inits, name="body")
            names += [m.name("y") for _ in extra]
            m.node("Scan", init + [xs], outs=names, body=g, num_scan_inputs=1)
    for y, (d, n) in zip(names, spec):
        if n is None and chance(rng, 0.5):
            y = m.node("Add", [y, m.inp(d, [2])])
        elif n is not None and chance(rng, 0.5):
            y = m.node("Mul", [y, m.const(np.array([2], i64))]) if chance(rng, 0.5) else m.node("Concat", [y, y], axis=0)
        m.out(y)
    for y in names[nv:]:
        m.out(y)
    return m.build(rtol=1e-3, atol=1e-3)


GENS = [(if_, 5), (if_const, 2), (if_nested, 2), (loop, 6), (loop_if, 2), (scan, 4), (weights_in_branch, 2),
        (if_scalars, 3), (loop_int, 3), (loop_grow, 1), (if_pass, 2), (nest, 5), (loop_while, 3), (kinds, 5)]


def p_loop_scan():
    m = M(np.random.default_rng(0), opset=17)
    x = m.inp(f32, [2, 1])
    s = Sub(m)
    r = s.node("Neg", ["s"])
    co = s.node("Identity", ["c"])
    e = s.node("Relu", ["s"])
    g = pb.Graph(s.nodes, [vi("i", i64), vi("c", b1), vi("s", f32, [2, 1])], [vi(co, b1), vi(r, f32, [2, 1]), vi(e, f32, [2, 1])], s.inits, name="body")
    m.out(m.node("Loop", [m.const(np.array(3, i64)), "", x], nout=2, body=g)[1])
    return m.build()


PINS = {"loop-scan-concat": p_loop_scan}
