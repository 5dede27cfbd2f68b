"""Operators as their older versions define them: attributes that later became inputs, other defaults, legacy broadcasting."""
import numpy as np
from .. import gen, pb
from . import control, datamove, elementwise, layers, linalg, shapes
from ..gen import M, chance, pick, rshape, vals
from .linalg import nax
from .layers import ri

f32, f64, i32, i64, b1 = np.float32, np.float64, np.int32, np.int64, np.bool_


def branches(m, ys, fn):
    """The same nodes in both branches of an If: subgraphs follow the model's version too."""
    r = fn({n: v[0] for n, _, _, v in m.ins})
    r = r if isinstance(r, list) else [r]
    nodes, m.nodes, br = m.nodes, [], {}
    c = m.inp(b1, [])
    for b in ("then_branch", "else_branch"):
        new = {o: m.name("z") for n in nodes for o in n.outputs}
        ns = [pb.Node(n.op, [new.get(i, i) for i in n.inputs], [new[o] for o in n.outputs], **n.attrs) for n in nodes]
        br[b] = pb.Graph(ns, [], [pb.VI(new[y], v.dtype.type, list(v.shape)) for y, v in zip(ys, r)], name=b)
    outs = [m.name("y") for _ in ys]
    m.nodes.append(pb.Node("If", [c], outs, **br))
    return outs


def done(m, y, fn, refusable=False, flat=False, **k):
    y = [y] if isinstance(y, str) else y
    if not flat and chance(m.rng, 0.25):
        y = branches(m, y, fn)
    m.out(*y)

    def expected(s, env):
        r = fn(env)
        return r if isinstance(r, list) else [r]
    c = m.build(expected=expected, **k)
    c.refusable = refusable
    return c


def softmaxes(rng):
    """Before opset 13 the axis splits the shape in two: one distribution over everything behind it."""
    m = M(rng, opset=int(rng.integers(1, 13)))
    d = rshape(rng, 1, 4, 1, 4)
    op = pick(rng, ["Softmax", "LogSoftmax", "Hardmax"])
    a, at = 1, {}
    if chance(rng, 0.7) or len(d) == 1:
        a = ri(rng, 0, len(d) - 1)
        at["axis"] = nax(rng, a, len(d)) if m.opset >= 11 else a
    d[a + 1:] = [1] * len(d[a + 1:])  # known: what lies behind the axis
    x = m.inp(f32, d)
    rows = int(np.prod(d[:a]))

    def fn(env):
        v = env[x].reshape(rows, -1).astype(f64)
        e = np.exp(v - v.max(1, keepdims=True))
        r = e / e.sum(1, keepdims=True)
        if op == "LogSoftmax":
            r = np.log(r)
        if op == "Hardmax":
            r = np.zeros_like(v)
            r[np.arange(rows), v.argmax(1)] = 1
        return r.reshape(env[x].shape).astype(f32)
    return done(m, m.node(op, [x], **at), fn, rtol=1e-4, atol=1e-5)


BIN = {"Add": np.add, "Sub": np.subtract, "Mul": np.multiply, "Div": np.divide, "Pow": np.power}
CMP = {"Less": np.less, "Greater": np.greater, "Equal": np.equal}
LOG = {"And": np.logical_and, "Or": np.logical_or, "Xor": np.logical_xor}


def legacy_broadcast(rng):
    """Before opset 7: the second operand fits into the first one's shape from `axis` on, if `broadcast` is set."""
    m = M(rng, opset=int(rng.integers(1, 7)))
    op, f = pick(rng, list(BIN.items()) * 2 + list(CMP.items()) + list(LOG.items()))
    d = rshape(rng, 1, 4, 1, 4)
    dt = b1 if op in LOG else i32 if op == "Equal" else f32
    at = {}
    if chance(rng, 0.7):
        k = ri(rng, 0, len(d))
        at["broadcast"] = 1
        a = len(d) - k
        if chance(rng, 0.7) and k:
            at["axis"] = a  # known: another axis than this one
        e = d[a:a + k]
    else:
        a, e = 0, d
    lo, hi = (0.3, 2) if op in ("Pow", "Div") else (-2, 2) if dt == i32 else (-3, 3)
    x = m.inp(dt, d, lo, hi)
    cv = vals(rng, dt, e, lo, hi)
    w = m.inp(dt, e, lo, hi) if chance(rng, 0.5) else m.const(cv)

    def fn(env):
        v = env.get(w, cv)
        return np.asarray(f(env[x], v.reshape(v.shape + (1,) * (len(d) - a - v.ndim)))).astype(b1 if op in CMP or op in LOG else dt)
    return done(m, m.node(op, [x, w], **at), fn, rtol=1e-4, atol=1e-5)


def slices(rng):
    """Before opset 10: starts, ends and axes are attributes."""
    m = M(rng, opset=int(rng.integers(1, 10)))
    d = rshape(rng, 1, 4, 2, 5)
    x = m.inp(pick(rng, [f32, i32, i64]), d)
    ax = sorted(rng.choice(len(d), ri(rng, 1, len(d)), replace=False).tolist())
    if chance(rng, 0.3):
        ax = list(range(len(ax)))
    st, en, ix = [], [], [slice(None)] * len(d)
    for a in ax:
        s = ri(rng, 0, d[a] - 1)
        e = ri(rng, s + 1, d[a])
        ix[a] = slice(s, e)
        st.append(s - d[a] if chance(rng, 0.3) else s)
        en.append(e - d[a] if e < d[a] and chance(rng, 0.3) else e + 1000 if e == d[a] and chance(rng, 0.5) else e)
    at = dict(starts=st, ends=en)
    if ax != list(range(len(ax))) or chance(rng, 0.5):
        at["axes"] = ax
    return done(m, m.node("Slice", [x], **at), lambda env: env[x][tuple(ix)])


def axes_attr(rng):
    """Before opset 13 (18): axes of Squeeze, Unsqueeze, ReduceSum (the other reductions) are attributes."""
    op = pick(rng, ["Squeeze", "Unsqueeze", "ReduceSum", "ReduceMean", "ReduceMax", "ReduceL2", "ReduceProd", "ReduceLogSumExp"])
    m = M(rng, opset=int(rng.integers(1, 13 if op in ("Squeeze", "Unsqueeze", "ReduceSum") else 18)))
    d = rshape(rng, 1, 4, 1, 4)
    neg = m.opset >= 11
    if op == "Squeeze":
        ones = sorted(rng.choice(len(d), ri(rng, 1, len(d)), replace=False).tolist())
        d = [1 if i in ones else max(2, v) for i, v in enumerate(d)]
        if len(ones) == len(d):
            d.append(3)
        x = m.inp(f32, d)
        at = dict(axes=[a - len(d) if neg and chance(rng, 0.3) else a for a in ones]) if chance(rng, 0.8) else {}
        return done(m, m.node(op, [x], **at), lambda env: env[x].reshape([v for i, v in enumerate(d) if i not in ones]))
    if op == "Unsqueeze":
        k = ri(rng, 1, 2)
        ax = sorted(rng.choice(len(d) + k, k, replace=False).tolist())
        x = m.inp(f32, d)
        sh = list(d)
        for a in ax:
            sh.insert(a, 1)
        return done(m, m.node(op, [x], axes=[a - len(sh) if neg and chance(rng, 0.3) else a for a in ax]), lambda env: env[x].reshape(sh))
    ax = sorted(rng.choice(len(d), ri(rng, 1, len(d)), replace=False).tolist())
    at = {}
    if chance(rng, 0.8):
        at["axes"] = [a - len(d) if neg and chance(rng, 0.3) else a for a in ax]
    else:
        ax = list(range(len(d)))
    kd = 1
    if chance(rng, 0.6):
        kd = at["keepdims"] = int(rng.integers(0, 2))
    x = m.inp(f32, d)
    f = {"ReduceSum": np.sum, "ReduceMean": np.mean, "ReduceMax": np.max, "ReduceProd": np.prod, "ReduceL2": lambda v, axis, keepdims: np.sqrt(np.sum(v * v, axis=axis, keepdims=keepdims)),
         "ReduceLogSumExp": lambda v, axis, keepdims: np.log(np.sum(np.exp(v), axis=axis, keepdims=keepdims))}[op]
    return done(m, m.node(op, [x], **at), lambda env: np.asarray(f(env[x].astype(f64), axis=tuple(ax), keepdims=bool(kd))).astype(f32), rtol=1e-4, atol=1e-4)


def misc(rng):
    k = pick(rng, ["clip", "pad", "pad1", "topk", "split", "concat1", "cast1", "reshape1", "tile1", "gemm", "prelu", "batchnorm", "dropout", "upsample", "resize10", "eltwise", "cumnone", "gather", "isnan"])
    m = M(rng)
    d = rshape(rng, 2, 4, 2, 4)
    if k == "clip":
        m.opset = int(rng.integers(1, 11))
        x = m.inp(f32, d)
        at, lo, hi = {}, -np.inf, np.inf
        if chance(rng, 0.7):
            lo = at["min"] = float(f32(rng.uniform(-2, 0)))
        if chance(rng, 0.7):
            hi = at["max"] = float(f32(rng.uniform(0, 2)))
        return done(m, m.node("Clip", [x], **at), lambda env: np.clip(env[x], f32(lo), f32(hi)), refusable=not at)
    if k in ("pad", "pad1"):
        m.opset = int(rng.integers(2, 11)) if k == "pad" else 1
        x = m.inp(f32, d)
        p = [[int(rng.integers(0, 3)) if i >= len(d) - 2 else 0 for i in range(len(d))] for _ in range(2)]
        at = {"pads" if k == "pad" else "paddings": p[0] + p[1]}
        v = 0.0
        if chance(rng, 0.6):
            v = at["value"] = float(f32(rng.uniform(-2, 2)))
        if chance(rng, 0.3):
            at["mode"] = "constant"
        return done(m, m.node("Pad", [x], **at), lambda env: np.pad(env[x], list(zip(*p)), constant_values=f32(v)))
    if k == "topk":
        m.opset = int(rng.integers(1, 10))
        a = ri(rng, 0, len(d) - 1)
        n = ri(rng, 1, d[a])
        x = m.inp(f32, d)

        def fn(env):
            i = np.argsort(-env[x], axis=a, kind="stable").take(range(n), axis=a)
            return [np.take_along_axis(env[x], i, a), i.astype(i64)]
        at = {} if a == len(d) - 1 and chance(rng, 0.5) else dict(axis=a)
        return done(m, m.node("TopK", [x], nout=2, k=n, **at), fn)
    if k == "split":
        m.opset = int(rng.integers(2, 13))
        a = ri(rng, 0, len(d) - 1)
        parts = [ri(rng, 1, 3) for _ in range(ri(rng, 2, 3))]
        even = chance(rng, 0.4)
        if even:
            parts = [parts[0]] * len(parts)
        d[a] = sum(parts)
        x = m.inp(f32, d)
        at = {} if even and chance(rng, 0.6) else dict(split=parts)
        if a or chance(rng, 0.5):
            at["axis"] = a
        return done(m, m.node("Split", [x], nout=len(parts), **at), lambda env: np.split(env[x], np.cumsum(parts)[:-1], a))
    if k == "concat1":
        m.opset = int(rng.integers(1, 4))
        x, z = m.inp(f32, d), m.inp(f32, d)
        return done(m, m.node("Concat", [x, z]), lambda env: np.concatenate([env[x], env[z]], 1), refusable=True)
    if k == "cast1":
        m.opset = int(rng.integers(1, 6))
        to, t = pick(rng, [("INT32", i32), ("DOUBLE", f64), ("INT64", i64), ("BOOL", b1)])
        x = m.inp(f32, d)
        return done(m, m.node("Cast", [x], to=to), lambda env: env[x].astype(t), refusable=True)
    if k == "reshape1":
        m.opset = int(rng.integers(1, 5))
        x = m.inp(f32, d)
        sh = pick(rng, [[-1], [0, -1], [d[0], -1], [int(np.prod(d[:-1])), d[-1]], [0] * len(d)])
        return done(m, m.node("Reshape", [x], shape=sh), lambda env: env[x].reshape([d[i] if v == 0 else v for i, v in enumerate(sh)]))
    if k == "tile1":
        m.opset = int(rng.integers(1, 6))
        x = m.inp(f32, d)
        a, n = ri(rng, 0, len(d) - 1), ri(rng, 1, 3)
        r = [n if i == a else 1 for i in range(len(d))]
        return done(m, m.node("Tile", [x, m.const(np.array([n], f32)), m.const(np.array([a], f32))]), lambda env: np.tile(env[x], r), refusable=True)
    if k == "gemm":
        m.opset = int(rng.integers(1, 11))
        M_, K, N_ = (ri(rng, 1, 4) for _ in range(3))
        at = {}
        ta, tb = chance(rng, 0.4), chance(rng, 0.4)
        if ta:
            at["transA"] = 1
        if tb:
            at["transB"] = 1
        if m.opset < 7:
            cs = pick(rng, [[M_, N_], [N_], [1, N_], [M_, 1]])
            if cs != [M_, N_]:
                at["broadcast"] = 1
        else:
            cs = pick(rng, [[M_, N_], [N_], [1, N_], [M_, 1], [1]])
        al = be = 1.0
        if chance(rng, 0.5):
            al = at["alpha"] = float(f32(rng.uniform(0.5, 2)))
            be = at["beta"] = float(f32(rng.uniform(0.5, 2)))
        a, b, c = m.inp(f32, [K, M_] if ta else [M_, K]), m.inp(f32, [N_, K] if tb else [K, N_]), m.inp(f32, cs)
        return done(m, m.node("Gemm", [a, b, c], **at), lambda env: (al * ((env[a].T if ta else env[a]) @ (env[b].T if tb else env[b])) + be * env[c]).astype(f32), refusable="broadcast" in at, rtol=1e-4, atol=1e-4)
    if k == "prelu":
        m.opset = int(rng.integers(1, 7))
        d = [2, 3] + d[2:]
        x = m.inp(f32, d)
        s = vals(rng, f32, [1] if chance(rng, 0.3) else [3], 0.1, 0.9)
        return done(m, m.node("PRelu", [x, m.const(s)]), lambda env: np.where(env[x] < 0, env[x] * s.reshape([-1] + [1] * (len(d) - 2)), env[x]).astype(f32))
    if k == "batchnorm":
        m.opset = int(rng.integers(6, 14))
        d = [2, 3] + d[2:]
        x = m.inp(f32, d)
        at = dict(epsilon=float(f32(1e-3)))
        if m.opset == 6:
            at["is_test"] = 1
        if m.opset < 9 and chance(rng, 0.5):
            at["spatial"] = 1
        w = [vals(rng, f32, [3], 0.3, 2) for _ in range(4)]
        sh = [3] + [1] * (len(d) - 2)
        return done(m, m.node("BatchNormalization", [x] + [m.const(v) for v in w], **at),
                    lambda env: ((env[x] - w[2].reshape(sh)) / np.sqrt(w[3].reshape(sh) + f32(1e-3)) * w[0].reshape(sh) + w[1].reshape(sh)).astype(f32), rtol=1e-3, atol=1e-4)
    if k == "dropout":
        m.opset = int(rng.integers(1, 12))
        x = m.inp(f32, d)
        at = dict(ratio=0.25)
        if m.opset < 7:
            at["is_test"] = 1
        return done(m, m.node("Dropout", [x], **at), lambda env: env[x])
    if k in ("upsample", "resize10"):
        m.opset = int(rng.integers(7, 10)) if k == "upsample" else 10
        s = [1.0, 1.0] + [float(ri(rng, 1, 3)) for _ in range(2)]
        d = [1, 2, 2, 3]
        x = m.inp(f32, d)
        ins, at = [x], dict(mode="nearest")
        if m.opset >= 9:
            ins.append(m.const(np.array(s, f32)))
        else:
            at["scales"] = s
        return done(m, m.node("Upsample" if k == "upsample" else "Resize", ins, **at), lambda env: env[x].repeat(int(s[2]), 2).repeat(int(s[3]), 3), refusable=k == "upsample")
    if k == "eltwise":
        m.opset = int(rng.integers(6, 13))
        op, f = pick(rng, [("Relu", lambda v: np.maximum(v, 0)), ("LeakyRelu", lambda v: np.where(v < 0, v * f32(0.01), v)), ("Elu", lambda v: np.where(v < 0, np.exp(v) - 1, v)), ("Neg", np.negative), ("Abs", np.abs), ("Exp", np.exp),
                           ("Sigmoid", lambda v: 1 / (1 + np.exp(-v))), ("Tanh", np.tanh), ("HardSigmoid", lambda v: np.clip(v * f32(0.2) + f32(0.5), 0, 1)), ("Selu", lambda v: f32(1.0507009873554805) * np.where(v <= 0, f32(1.6732632423543772) * (np.exp(v) - 1), v)),
                           ("Softplus", lambda v: np.log1p(np.exp(v))), ("Flatten", lambda v: v.reshape(v.shape[0], -1)), ("Transpose", np.transpose), ("Floor", np.floor), ("Ceil", np.ceil)])
        x = m.inp(f32, d)
        return done(m, m.node(op, [x]), lambda env: np.asarray(f(env[x])).astype(f32), rtol=1e-4, atol=1e-4)
    if k == "cumnone":
        m.opset = int(rng.integers(1, 9))
        op, f = pick(rng, [("Sum", np.sum), ("Mean", np.mean), ("Max", np.max), ("Min", np.min)])
        xs = [m.inp(f32, d) for _ in range(ri(rng, 1, 3))]
        return done(m, m.node(op, xs), lambda env: f(np.stack([env[x] for x in xs]), axis=0).astype(f32), refusable=op in ("Max", "Min") and len(xs) != 2, rtol=1e-4, atol=1e-4)
    if k == "gather":
        m.opset = int(rng.integers(1, 13))
        a = ri(rng, 0, len(d) - 1)
        x = m.inp(f32, d)
        ix = rng.integers(0, d[a], pick(rng, [[], [2], [2, 2]])).astype(i64)
        return done(m, m.node("Gather", [x, m.const(np.asarray(ix))], axis=a), lambda env: np.take(env[x], ix, a))
    m.opset = int(rng.integers(9, 13))
    x = m.inp(f32, d)
    return done(m, m.node("Where", [m.node("IsNaN", [x]), x, m.node("Neg", [x])]), lambda env: -env[x])


def pools(rng):
    """Layers at old opsets, with the attributes they had then."""
    m = M(rng, opset=int(rng.integers(1, 11)))
    x = m.inp(f32, [1, 2, 5, 6])
    k = [ri(rng, 1, 3), ri(rng, 1, 3)]
    st = [ri(rng, 1, 2), ri(rng, 1, 2)]
    op = pick(rng, ["MaxPool", "AveragePool", "GlobalAveragePool", "Conv"])
    if op == "GlobalAveragePool":
        return done(m, m.node(op, [x]), lambda env: env[x].mean((2, 3), keepdims=True), rtol=1e-4, atol=1e-5)
    at = dict(kernel_shape=k)
    if chance(rng, 0.6):
        at["strides"] = st
    else:
        st = [1, 1]
    w = vals(rng, f32, [3, 2] + k)

    def win(v):
        return np.lib.stride_tricks.sliding_window_view(v, tuple(k), (2, 3))[:, :, ::st[0], ::st[1]]
    if op == "Conv":
        return done(m, m.node(op, [x, m.const(w)], **at), lambda env: np.einsum("ncijkl,ockl->noij", win(env[x]), w).astype(f32), rtol=1e-4, atol=1e-4)
    return done(m, m.node(op, [x], **at), lambda env: (win(env[x]).max((4, 5)) if op == "MaxPool" else win(env[x]).mean((4, 5))).astype(f32), rtol=1e-4, atol=1e-5)


def version(mods, opsets, only=None):
    """Models of the other families, at other versions of the operator set."""
    fns = [f for m in mods for f, w in m.GENS for _ in range(w) if f.__name__ not in (only or ())]

    def g(rng):
        gen.OPSETS.append(opsets)
        try:
            return pick(rng, fns)(rng)
        finally:
            gen.OPSETS.pop()
    g.__name__ = f"opset{opsets[0]}to{opsets[-1]}"
    return g


newer = version([elementwise, datamove, linalg, layers, control, shapes], [22, 23, 24])
recent = version([elementwise, datamove, linalg, layers, control, shapes], [13, 14, 15])

GENS = [(newer, 10), (recent, 8), (softmaxes, 3), (legacy_broadcast, 4), (slices, 2), (axes_attr, 4), (misc, 10), (pools, 2)]


def _pin(op, opset, d, fn, e=None, dt=f32, **at):
    def f():
        m = M(np.random.default_rng(7), opset=opset)
        x = m.inp(dt, d)
        ins = [x] + ([m.inp(dt, e)] if e else [])
        return done(m, m.node(op, ins, **at), lambda env: fn(*(env[i] for i in ins)), flat=True, rtol=1e-4, atol=1e-5)
    return f


def _sm(v, log=False):
    e = np.exp(v.reshape(len(v), -1))
    r = (e / e.sum(1, keepdims=True)).reshape(v.shape)
    return (np.log(r) if log else r).astype(f32)


PINS = {"softmax-flat": _pin("Softmax", 11, [2, 3, 4], _sm), "logsoftmax-flat": _pin("LogSoftmax", 9, [2, 3, 4], lambda v: _sm(v, True)),
        "hardmax-flat": _pin("Hardmax", 11, [2, 3, 4], lambda v: (v == v.max((1, 2), keepdims=True)).astype(f32)),
        "legacy-axis": _pin("Add", 6, [2, 3, 2], lambda a, b: a + b.reshape(2, 3, 1), [2, 3], broadcast=1, axis=0)}
