"""Executable ONNX reference semantics in numpy, written from the ONNX operator specification."""
import math
import numpy as np
from . import pb

OPS = {}


class Unsupported(Exception):
    pass


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


class Ctx:
    """a: attributes, n: node, opset, env: values visible here (for subgraphs)."""

    def __init__(self, n, opset, env):
        self.n, self.opset, self.env = n, opset, env
        self.a = {k: (v.v if isinstance(v, pb.A) else v.array if isinstance(v, pb.Tensor) else v) for k, v in n.attrs.items() if v is not None}

    def get(self, k, d=None):
        v = self.a.get(k, d)
        return v.decode() if isinstance(v, bytes) else v


def run_model(m, inputs, want=None):
    """inputs: dict name -> array. Returns outputs in order (or dict of all values if want == 'all')."""
    env = dict(inputs)
    outs, env = run_graph(m.graph, env, m.opset)
    return env if want == "all" else outs


def run_graph(g, env, opset):
    env = dict(env)
    for t in g.inits:
        if t.name not in env or True:
            env[t.name] = t.array
    for n in g.nodes:
        run_node(n, env, opset)
    return [env[o.name] for o in g.outputs], env


def run_node(n, env, opset):
    if n.op not in OPS:
        raise Unsupported(n.op)
    x = [env[i] if i else None for i in n.inputs]
    c = Ctx(n, opset, env)
    with np.errstate(all="ignore"):
        r = OPS[n.op](c, *x)
    if not isinstance(r, (list, tuple)):
        r = [r]
    for o, v in zip(n.outputs, r):
        if o:
            env[o] = np.asarray(v)


# ---------------------------------------------------------------- elementwise
def isf(x):
    return np.issubdtype(x.dtype, np.floating)


def un(name, f):
    def g(c, x):
        return f(x.astype(np.float64)).astype(x.dtype)
    OPS[name] = g


try:
    from scipy.special import erf as _erf
except ImportError:
    _erf = np.vectorize(math.erf)


def sigmoid(x):
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def softplus(x):
    return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


for nm, f in dict(
    Acos=np.arccos, Acosh=np.arccosh, Asin=np.arcsin, Asinh=np.arcsinh, Atan=np.arctan, Atanh=np.arctanh,
    Cos=np.cos, Cosh=np.cosh, Sin=np.sin, Sinh=np.sinh, Tan=np.tan, Tanh=np.tanh, Exp=np.exp, Log=np.log, Sqrt=np.sqrt,
    Erf=_erf, Reciprocal=lambda x: 1 / x, Sigmoid=sigmoid, Softplus=softplus, Softsign=lambda x: x / (1 + np.abs(x)),
    HardSwish=lambda x: x * np.clip(x / 6 + 0.5, 0, 1), Mish=lambda x: x * np.tanh(softplus(x)),
    Ceil=np.ceil, Floor=np.floor, Round=np.rint,
).items():
    un(nm, f)


@op("Abs")
def _(c, x): return np.abs(x)
@op("Neg")
def _(c, x): return -x
@op("Sign")
def _(c, x): return np.sign(x)
@op("Relu")
def _(c, x): return np.maximum(x, x.dtype.type(0))
@op("Identity")
def _(c, x): return x
@op("Not")
def _(c, x): return ~x
@op("BitwiseNot")
def _(c, x): return ~x
@op("IsNaN")
def _(c, x): return np.isnan(x)


@op("IsInf")
def _(c, x):
    r = np.zeros(x.shape, bool)
    if c.get("detect_positive", 1):
        r |= x == np.inf
    if c.get("detect_negative", 1):
        r |= x == -np.inf
    return r


@op("LeakyRelu")
def _(c, x): return np.where(x < 0, x * x.dtype.type(c.get("alpha", 0.01)), x).astype(x.dtype)


@op("ThresholdedRelu")
def _(c, x): return np.where(x > np.float32(c.get("alpha", 1.0)), x, 0).astype(x.dtype)


@op("Elu")
def _(c, x): return np.where(x < 0, np.float32(c.get("alpha", 1.0)) * np.expm1(np.minimum(x, 0).astype(np.float64)), x).astype(x.dtype)


@op("Celu")
def _(c, x):
    a = np.float32(c.get("alpha", 1.0)); y = x.astype(np.float64)
    return (np.maximum(y, 0) + np.minimum(0, a * np.expm1(y / a))).astype(x.dtype)


@op("Selu")
def _(c, x):
    a, g = c.get("alpha", 1.67326319217681884765625), c.get("gamma", 1.05070102214813232421875)
    y = x.astype(np.float64)
    return (g * np.where(y <= 0, a * np.expm1(np.minimum(y, 0)), y)).astype(x.dtype)


@op("HardSigmoid")
def _(c, x): return np.clip(c.get("alpha", 0.2) * x.astype(np.float64) + c.get("beta", 0.5), 0, 1).astype(x.dtype)


@op("Gelu")
def _(c, x):
    y = x.astype(np.float64)
    if c.get("approximate", "none") == "tanh":
        return (0.5 * y * (1 + np.tanh(math.sqrt(2 / math.pi) * (y + 0.044715 * y**3)))).astype(x.dtype)
    return (0.5 * y * (1 + _erf(y / math.sqrt(2)))).astype(x.dtype)


@op("Swish")
def _(c, x):
    y = x.astype(np.float64)
    return (y * sigmoid(c.get("alpha", 1.0) * y)).astype(x.dtype)


@op("PRelu")
def _(c, x, s): return np.where(x < 0, x * s, x).astype(x.dtype)


@op("Dropout")
def _(c, x, r=None, t=None):
    if t is not None and bool(t):
        raise Unsupported("training dropout")
    return [x, np.ones(x.shape, bool if c.opset >= 10 else x.dtype)]


def binop(name, f):
    OPS[name] = lambda c, a, b: np.asarray(f(a, b)).astype(a.dtype)


binop("Add", np.add)
binop("Sub", np.subtract)
binop("Mul", np.multiply)


@op("Div")
def _(c, a, b):
    if isf(a):
        return (a / b).astype(a.dtype)
    if not np.all(b):
        raise Unsupported("integer division by zero")
    q = np.abs(a.astype(object)) // np.abs(b.astype(object))
    s = np.sign(a.astype(object)) * np.sign(b.astype(object))
    return np.asarray(q * s).astype(a.dtype)


@op("Pow")
def _(c, a, b):
    if isf(a) or isf(b):
        return np.power(a.astype(np.float64), b.astype(np.float64)).astype(a.dtype)
    return np.asarray(np.power(a.astype(object), b.astype(object))).astype(a.dtype)


@op("Mod")
def _(c, a, b):
    if c.get("fmod", 0):
        return np.fmod(a, b).astype(a.dtype)
    return np.mod(a, b).astype(a.dtype)


def cmpop(name, f):
    OPS[name] = lambda c, a, b: np.asarray(f(a, b))


for nm, f in dict(Equal=np.equal, Greater=np.greater, Less=np.less, GreaterOrEqual=np.greater_equal, LessOrEqual=np.less_equal,
                  And=np.logical_and, Or=np.logical_or, Xor=np.logical_xor, BitwiseAnd=np.bitwise_and,
                  BitwiseOr=np.bitwise_or, BitwiseXor=np.bitwise_xor).items():
    cmpop(nm, f)


@op("BitShift")
def _(c, a, b):
    return np.left_shift(a, b) if c.get("direction") == "LEFT" else np.right_shift(a, b)


def nary(name, f):
    def g(c, *x):
        r = x[0]
        for y in x[1:]:
            r = f(r, y)
        return np.asarray(r).astype(x[0].dtype)
    OPS[name] = g


nary("Max", np.maximum)
nary("Min", np.minimum)
nary("Sum", np.add)


@op("Mean")
def _(c, *x):
    r = x[0].astype(np.float64)
    for y in x[1:]:
        r = r + y
    return (r / len(x)).astype(x[0].dtype)


@op("Clip")
def _(c, x, lo=None, hi=None):
    if c.opset < 11:
        lo, hi = c.get("min"), c.get("max")
    r = x
    if lo is not None:
        r = np.maximum(r, np.asarray(lo).astype(x.dtype))
    if hi is not None:
        r = np.minimum(r, np.asarray(hi).astype(x.dtype))
    return r


@op("Where")
def _(c, m, a, b): return np.where(m, a, b)


def cast(x, to):
    if to == np.bool_:
        return x != 0
    if isf(x) and np.issubdtype(to, np.integer):
        return np.trunc(x).astype(np.int64).astype(to) if to != np.uint64 else np.trunc(x).astype(to)
    return x.astype(to)


@op("Cast")
def _(c, x): return cast(x, pb.PB2NP[c.get("to")])


@op("CastLike")
def _(c, x, y): return cast(x, y.dtype)


# ---------------------------------------------------------------- data movement
def ints(v):
    return [int(i) for i in np.asarray(v).reshape(-1)]


def norm(ax, r):
    return ax + r if ax < 0 else ax


@op("Shape")
def _(c, x):
    r = x.ndim
    s, e = c.get("start", 0), c.get("end", r)
    s = min(max(norm(s, r), 0), r); e = min(max(norm(e, r), 0), r)
    return np.array(x.shape[s:e] if e > s else (), np.int64)


@op("Size")
def _(c, x): return np.array(x.size, np.int64)


@op("Reshape")
def _(c, x, s=None):
    s = ints(s if s is not None else c.get("shape"))
    if not c.get("allowzero", 0):
        s = [x.shape[i] if d == 0 else d for i, d in enumerate(s)]
    return x.reshape(s)


@op("Transpose")
def _(c, x): return np.transpose(x, c.get("perm") or None)


@op("Flatten")
def _(c, x):
    a = norm(c.get("axis", 1), x.ndim)
    return x.reshape(int(np.prod(x.shape[:a])), int(np.prod(x.shape[a:])))


@op("Squeeze")
def _(c, x, ax=None):
    ax = ax if ax is not None else c.get("axes")
    if ax is None:
        return np.squeeze(x)
    return np.squeeze(x, tuple(norm(i, x.ndim) for i in ints(ax)))


@op("Unsqueeze")
def _(c, x, ax=None):
    ax = ints(ax if ax is not None else c.get("axes"))
    r = x.ndim + len(ax)
    for a in sorted(norm(i, r) for i in ax):
        x = np.expand_dims(x, a)
    return x


@op("Expand")
def _(c, x, s): return np.broadcast_to(x, np.broadcast_shapes(x.shape, tuple(ints(s)))).copy()


@op("Concat")
def _(c, *x): return np.concatenate(x, c.get("axis"))


@op("Split")
def _(c, x, sp=None):
    ax = norm(c.get("axis", 0), x.ndim)
    sp = sp if sp is not None else c.get("split")
    if sp is None:
        n = c.get("num_outputs", len(c.n.outputs))
        k = -(-x.shape[ax] // n)
        sp = [k] * (n - 1) + [x.shape[ax] - k * (n - 1)]
    sp = ints(sp)
    return np.split(x, np.cumsum(sp)[:-1], ax)


@op("Slice")
def _(c, x, st=None, en=None, ax=None, sp=None):
    if st is None:
        st, en, ax = c.get("starts"), c.get("ends"), c.get("axes")
    st, en = ints(st), ints(en)
    ax = ints(ax) if ax is not None else list(range(len(st)))
    sp = ints(sp) if sp is not None else [1] * len(st)
    sl = [slice(None)] * x.ndim
    for s, e, a, p in zip(st, en, ax, sp):
        a = norm(a, x.ndim)
        d = x.shape[a]
        s = s + d if s < 0 else s
        e = e + d if e < 0 else e
        if p > 0:
            s = min(max(s, 0), d); e = min(max(e, 0), d)
            sl[a] = slice(s, max(e, s), p)
        else:
            s = min(max(s, 0), d - 1); e = min(max(e, -1), d - 1)
            sl[a] = slice(s, None if e < 0 else e, p) if s > e else slice(0, 0)
    return x[tuple(sl)]


@op("Gather")
def _(c, x, i):
    a = norm(c.get("axis", 0), x.ndim)
    return np.take(x, np.where(i < 0, i + x.shape[a], i), a)


@op("GatherElements")
def _(c, x, i):
    a = norm(c.get("axis", 0), x.ndim)
    i = np.where(i < 0, i + x.shape[a], i)
    r = np.empty(i.shape, x.dtype)
    for k in np.ndindex(*i.shape):
        s = list(k); s[a] = i[k]
        r[k] = x[tuple(s)]
    return r


@op("GatherND")
def _(c, x, i):
    b = c.get("batch_dims", 0)
    bs = x.shape[:b]
    k = i.shape[-1]
    out = np.empty(bs + i.shape[b:-1] + x.shape[b + k:], x.dtype)
    for p in np.ndindex(*bs):
        for q in np.ndindex(*i.shape[b:-1]):
            out[p + q] = x[p + tuple(int(v) for v in i[p + q])]
    return out


RED = dict(none=lambda a, b: b, add=lambda a, b: a + b, mul=lambda a, b: a * b, max=lambda a, b: max(a, b), min=lambda a, b: min(a, b))


@op("ScatterElements", "Scatter")
def _(c, x, i, u):
    a = norm(c.get("axis", 0), x.ndim)
    f = RED[c.get("reduction", "none")]
    r = x.copy()
    for k in np.ndindex(*i.shape):
        s = list(k); v = int(i[k]); s[a] = v + x.shape[a] if v < 0 else v
        s = tuple(s)
        r[s] = f(r[s], u[k])
    return r


@op("ScatterND")
def _(c, x, i, u):
    red = c.get("reduction", "none")
    r = x.copy()
    for k in np.ndindex(*i.shape[:-1]):
        s = tuple(int(v) for v in i[k])
        if red == "none":
            r[s] = u[k]
        else:
            g = dict(add=np.add, mul=np.multiply, max=np.maximum, min=np.minimum)[red]
            r[s] = g(r[s], u[k])
    return r


@op("Tile")
def _(c, x, r): return np.tile(x, ints(r))


@op("Pad")
def _(c, x, p=None, v=None, ax=None):
    if c.opset < 11:
        p, v = c.get("pads", c.get("paddings")), c.get("value", 0.0)
    p = ints(p)
    ax = [norm(a, x.ndim) for a in ints(ax)] if ax is not None else list(range(x.ndim))
    k = len(ax)
    w = [(0, 0)] * x.ndim
    for j, a in enumerate(ax):
        w[a] = (p[j], p[j + k])
    mode = c.get("mode", "constant")
    # negative pads crop
    sl = tuple(slice(max(-lo, 0), x.shape[d] - max(-hi, 0)) for d, (lo, hi) in enumerate(w))
    w = [(max(lo, 0), max(hi, 0)) for lo, hi in w]
    if mode == "constant":
        return np.pad(x[sl], w, constant_values=(x.dtype.type(0) if v is None else np.asarray(v).astype(x.dtype).reshape(())))
    return np.pad(x[sl], w, mode={"reflect": "reflect", "edge": "edge", "wrap": "wrap"}[mode])


@op("DepthToSpace")
def _(c, x):
    b, ch, h, w = x.shape; k = c.get("blocksize")
    if c.get("mode", "DCR") == "DCR":
        t = x.reshape(b, k, k, ch // (k * k), h, w).transpose(0, 3, 4, 1, 5, 2)
    else:
        t = x.reshape(b, ch // (k * k), k, k, h, w).transpose(0, 1, 4, 2, 5, 3)
    return t.reshape(b, ch // (k * k), h * k, w * k)


@op("SpaceToDepth")
def _(c, x):
    b, ch, h, w = x.shape; k = c.get("blocksize")
    return x.reshape(b, ch, h // k, k, w // k, k).transpose(0, 3, 5, 1, 2, 4).reshape(b, ch * k * k, h // k, w // k)


@op("OneHot")
def _(c, i, d, v):
    d = int(np.asarray(d).reshape(-1)[0]); off, on = v
    ax = norm(c.get("axis", -1), i.ndim + 1)
    i = i.astype(np.int64)
    i = np.where(i < 0, i + d, i)
    m = np.expand_dims(i, ax) == np.arange(d).reshape([-1 if k == ax else 1 for k in range(i.ndim + 1)])
    return np.where(m, on, off).astype(v.dtype)


@op("Trilu")
def _(c, x, k=None):
    k = 0 if k is None else int(k)
    return np.triu(x, k) if c.get("upper", 1) else np.tril(x, k)


@op("EyeLike")
def _(c, x):
    dt = pb.PB2NP[c.get("dtype")] if c.get("dtype") else x.dtype
    return np.eye(x.shape[0], x.shape[1], c.get("k", 0), dtype=dt)


@op("NonZero")
def _(c, x): return np.array(np.nonzero(np.atleast_1d(x)), np.int64)


@op("ConstantOfShape")
def _(c, s):
    v = c.get("value")
    v = np.zeros(1, np.float32) if v is None else np.asarray(v)
    return np.full(tuple(ints(s)), v.reshape(-1)[0], v.dtype)


@op("Range")
def _(c, s, l, d):
    n = max(int(math.ceil((l.item() - s.item()) / d.item())), 0)
    return np.array([s.item() + i * d.item() for i in range(n)], s.dtype)


@op("Constant")
def _(c):
    for k, v in c.a.items():
        if k == "value":
            return np.asarray(v)
        if k in ("value_float", "value_floats"):
            return np.array(v, np.float32)
        if k in ("value_int", "value_ints"):
            return np.array(v, np.int64)
    raise Unsupported("Constant")


@op("Col2Im")
def _(c, x, im, blk):
    im, blk = ints(im), ints(blk)
    k = len(im)
    dil = c.get("dilations") or [1] * k
    pads = c.get("pads") or [0] * (2 * k)
    st = c.get("strides") or [1] * k
    n, cb, L = x.shape
    B = int(np.prod(blk)); ch = cb // B
    padded = [im[i] + pads[i] + pads[i + k] for i in range(k)]
    out = np.zeros([n, ch] + padded, x.dtype)
    osz = [(padded[i] - dil[i] * (blk[i] - 1) - 1) // st[i] + 1 for i in range(k)]
    v = x.reshape([n, ch] + blk + osz)
    for bi in np.ndindex(*blk):
        for oi in np.ndindex(*osz):
            p = tuple(oi[d] * st[d] + bi[d] * dil[d] for d in range(k))
            out[(slice(None), slice(None)) + p] += v[(slice(None), slice(None)) + bi + oi]
    return out[(slice(None), slice(None)) + tuple(slice(pads[d], pads[d] + im[d]) for d in range(k))]


# ---------------------------------------------------------------- reductions, linear algebra
def red_axes(c, x, ax):
    if ax is None:
        ax = c.get("axes")
    if ax is None or len(ints(ax)) == 0:
        if c.get("noop_with_empty_axes", 0):
            return ()
        return tuple(range(x.ndim))
    return tuple(norm(a, x.ndim) for a in ints(ax))


def reduce(name, f):
    def g(c, x, ax=None):
        a = red_axes(c, x, ax)
        noop = a == () and c.get("noop_with_empty_axes", 0)
        if noop:
            return x if name not in ("ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare") else np.asarray(f(x, (), True)).astype(x.dtype)
        return np.asarray(f(x, a, bool(c.get("keepdims", 1)))).astype(x.dtype)
    OPS[name] = g


F = lambda x: x.astype(np.float64) if isf(x) else x
reduce("ReduceSum", lambda x, a, k: np.sum(F(x), axis=a, keepdims=k, dtype=None if isf(x) else x.dtype))
reduce("ReduceMean", lambda x, a, k: np.mean(x.astype(np.float64), axis=a, keepdims=k))
reduce("ReduceMax", lambda x, a, k: np.max(x, axis=a, keepdims=k))
reduce("ReduceMin", lambda x, a, k: np.min(x, axis=a, keepdims=k))
reduce("ReduceProd", lambda x, a, k: np.prod(F(x), axis=a, keepdims=k, dtype=None if isf(x) else x.dtype))
reduce("ReduceL1", lambda x, a, k: np.sum(np.abs(F(x)), axis=a, keepdims=k))
reduce("ReduceL2", lambda x, a, k: np.sqrt(np.sum(x.astype(np.float64)**2, axis=a, keepdims=k)))
reduce("ReduceLogSum", lambda x, a, k: np.log(np.sum(x.astype(np.float64), axis=a, keepdims=k)))
reduce("ReduceLogSumExp", lambda x, a, k: np.log(np.sum(np.exp(x.astype(np.float64)), axis=a, keepdims=k)))
reduce("ReduceSumSquare", lambda x, a, k: np.sum(F(x) * F(x), axis=a, keepdims=k))


def argred(c, x, f):
    a = norm(c.get("axis", 0), x.ndim)
    if c.get("select_last_index", 0):
        r = x.shape[a] - 1 - f(np.flip(x, a), a)
    else:
        r = f(x, a)
    r = r.astype(np.int64)
    return np.expand_dims(r, a) if c.get("keepdims", 1) else r


@op("ArgMax")
def _(c, x): return argred(c, x, np.argmax)
@op("ArgMin")
def _(c, x): return argred(c, x, np.argmin)


@op("CumSum")
def _(c, x, ax):
    a = norm(int(np.asarray(ax).reshape(-1)[0]), x.ndim)
    if c.get("reverse", 0):
        x = np.flip(x, a)
    r = np.cumsum(F(x), a).astype(x.dtype)
    if c.get("exclusive", 0):
        r = np.roll(r, 1, a)
        s = [slice(None)] * x.ndim; s[a] = slice(0, 1)
        r[tuple(s)] = 0
    return np.flip(r, a) if c.get("reverse", 0) else r


@op("TopK")
def _(c, x, k=None):
    k = int(np.asarray(k).reshape(-1)[0]) if k is not None else c.get("k")
    a = norm(c.get("axis", -1), x.ndim)
    o = np.argsort(-x if c.get("largest", 1) else x, axis=a, kind="stable")
    o = np.take(o, np.arange(k), a)
    return [np.take_along_axis(x, o, a), o.astype(np.int64)]


def softmax_axis(c, x):
    d = 1 if c.opset < 13 else -1
    return norm(c.get("axis", d), x.ndim)


def coerce2d(c, x, f):
    a = softmax_axis(c, x)
    if c.opset < 13:
        s = x.shape
        y = x.reshape(int(np.prod(s[:a])), -1)
        return f(y, 1).reshape(s)
    return f(x, a)


def _softmax(x, a):
    y = x.astype(np.float64)
    e = np.exp(y - y.max(axis=a, keepdims=True))
    return (e / e.sum(axis=a, keepdims=True)).astype(x.dtype)


@op("Softmax")
def _(c, x): return coerce2d(c, x, _softmax)


@op("LogSoftmax")
def _(c, x):
    def f(x, a):
        y = x.astype(np.float64); y = y - y.max(axis=a, keepdims=True)
        return (y - np.log(np.exp(y).sum(axis=a, keepdims=True))).astype(x.dtype)
    return coerce2d(c, x, f)


@op("Hardmax")
def _(c, x):
    def f(x, a):
        i = np.expand_dims(np.argmax(x, a), a)
        r = np.zeros_like(x); np.put_along_axis(r, i, 1, a)
        return r
    return coerce2d(c, x, f)


@op("MatMul")
def _(c, a, b): return np.matmul(F(a), F(b)).astype(a.dtype)


@op("MatMulInteger")
def _(c, a, b, az=None, bz=None):
    A, B = a.astype(np.int32), b.astype(np.int32)
    if az is not None:
        z = az.astype(np.int32)
        A = A - (z.reshape(-1, 1) if z.ndim == 1 and z.size > 1 else z)
    if bz is not None:
        B = B - bz.astype(np.int32)
    return np.matmul(A, B)


@op("Gemm")
def _(c, a, b, z=None):
    A = F(a).T if c.get("transA", 0) else F(a)
    B = F(b).T if c.get("transB", 0) else F(b)
    r = np.float32(c.get("alpha", 1.0)) * (A @ B)
    if z is not None:
        r = r + np.float32(c.get("beta", 1.0)) * z
    return r.astype(a.dtype)


@op("Attention")
def _(c, Q, K, V, mask=None, pk=None, pv=None):
    r3 = Q.ndim == 3
    if r3:
        h, kh = c.get("q_num_heads"), c.get("kv_num_heads")
        sp = lambda x, h: x.reshape(x.shape[0], x.shape[1], h, -1).transpose(0, 2, 1, 3)
        Q, K, V = sp(Q, h), sp(K, kh), sp(V, kh)
    dt = Q.dtype
    if pk is not None:
        K, V = np.concatenate([pk, K], 2), np.concatenate([pv, V], 2)
    PK, PV = K, V
    Q, K, V = (x.astype(np.float64) for x in (Q, K, V))
    if K.shape[1] != Q.shape[1]:
        g = Q.shape[1] // K.shape[1]
        K, V = np.repeat(K, g, 1), np.repeat(V, g, 1)
    sc = c.get("scale")
    sc = 1 / math.sqrt(Q.shape[-1]) if sc is None else sc
    s = (Q @ K.swapaxes(-1, -2)) * sc
    mode = c.get("qk_matmul_output_mode", 0)
    qk = [s]
    if mask is not None:
        s = s + (np.where(mask, 0.0, -np.inf) if mask.dtype == np.bool_ else mask)
    if c.get("is_causal", 0):
        s = np.where(np.tril(np.ones(s.shape[-2:], bool)), s, -np.inf)
    qk.append(s)
    if c.get("softcap", 0.0):
        cap = c.get("softcap"); s = cap * np.tanh(s / cap)
    qk.append(s)
    s = _softmax(s, -1)
    qk.append(s)
    y = s @ V
    if r3:
        y = y.transpose(0, 2, 1, 3).reshape(y.shape[0], y.shape[2], -1)
    return (y.astype(dt), PK, PV, qk[mode].astype(dt))[:max(1, len(c.n.outputs))]


# ---------------------------------------------------------------- layers
def auto_pads(c, ishape, k, st, dil):
    n = len(k)
    ap = c.get("auto_pad", "NOTSET")
    if ap in ("NOTSET", ""):
        return c.get("pads") or [0] * (2 * n)
    if ap == "VALID":
        return [0] * (2 * n)
    b, e = [], []
    for i in range(n):
        o = -(-ishape[i] // st[i])
        t = max((o - 1) * st[i] + dil[i] * (k[i] - 1) + 1 - ishape[i], 0)
        lo = t // 2 if ap == "SAME_UPPER" else t - t // 2
        b.append(lo); e.append(t - lo)
    return b + e


@op("Conv")
def _(c, x, w, b=None):
    k = list(w.shape[2:]); n = len(k)
    st = c.get("strides") or [1] * n
    dil = c.get("dilations") or [1] * n
    g = c.get("group", 1)
    p = auto_pads(c, x.shape[2:], k, st, dil)
    X = np.pad(x.astype(np.float64), [(0, 0), (0, 0)] + [(p[i], p[i + n]) for i in range(n)])
    o = [(X.shape[2 + i] - dil[i] * (k[i] - 1) - 1) // st[i] + 1 for i in range(n)]
    M, cg = w.shape[0], w.shape[1]
    r = np.zeros([x.shape[0], M] + o)
    for m in range(M):
        gi = m // (M // g)
        xs = X[:, gi * cg:(gi + 1) * cg]
        for ki in np.ndindex(*k):
            sl = tuple(slice(ki[d] * dil[d], ki[d] * dil[d] + (o[d] - 1) * st[d] + 1, st[d]) for d in range(n))
            r[:, m] += np.tensordot(xs[(slice(None), slice(None)) + sl], w[(m, slice(None)) + ki].astype(np.float64), ([1], [0]))
        if b is not None:
            r[:, m] += b[m]
    return r.astype(x.dtype)


@op("ConvTranspose")
def _(c, x, w, b=None):
    k = list(w.shape[2:]); n = len(k)
    st = c.get("strides") or [1] * n
    dil = c.get("dilations") or [1] * n
    g = c.get("group", 1)
    op_ = c.get("output_padding") or [0] * n
    if c.get("output_shape") or c.get("auto_pad", "NOTSET") not in ("NOTSET", "VALID"):
        raise Unsupported("ConvTranspose auto")
    p = c.get("pads") or [0] * (2 * n)
    full = [(x.shape[2 + i] - 1) * st[i] + dil[i] * (k[i] - 1) + 1 + op_[i] for i in range(n)]
    mg = w.shape[1]; M = mg * g; cg = x.shape[1] // g
    r = np.zeros([x.shape[0], M] + full)
    for ci in range(x.shape[1]):
        gi = ci // cg
        for mi in range(mg):
            for ki in np.ndindex(*k):
                sl = tuple(slice(ki[d] * dil[d], ki[d] * dil[d] + (x.shape[2 + d] - 1) * st[d] + 1, st[d]) for d in range(n))
                r[(slice(None), gi * mg + mi) + sl] += x[:, ci].astype(np.float64) * float(w[(ci, mi) + ki])
    r = r[(slice(None), slice(None)) + tuple(slice(p[d], full[d] - p[d + n]) for d in range(n))]
    if b is not None:
        r = r + b.reshape([1, -1] + [1] * n)
    return r.astype(x.dtype)


@op("DeformConv")
def _(c, x, w, off, b=None, mask=None):
    kh, kw = w.shape[2:]
    sh, sw = c.get("strides") or [1, 1]
    dh, dw = c.get("dilations") or [1, 1]
    p = c.get("pads") or [0] * 4
    g, og = c.get("group", 1), c.get("offset_group", 1)
    N, C, H, W = x.shape
    oh, ow = off.shape[2:]
    M, cg = w.shape[:2]
    off = off.reshape(N, og, kh, kw, 2, oh, ow)
    mk = np.ones((N, og, kh, kw, oh, ow)) if mask is None else mask.reshape(N, og, kh, kw, oh, ow)
    r = np.zeros((N, M, oh, ow))

    def samp(n, ch, y, xx):
        if y <= -1 or y >= H or xx <= -1 or xx >= W:
            return 0.0
        y0, x0 = math.floor(y), math.floor(xx)
        v = 0.0
        for yy, wy in ((y0, 1 - (y - y0)), (y0 + 1, y - y0)):
            for xc, wx in ((x0, 1 - (xx - x0)), (x0 + 1, xx - x0)):
                if 0 <= yy < H and 0 <= xc < W:
                    v += wy * wx * float(x[n, ch, yy, xc])
        return v
    for n in range(N):
        for ch in range(C):
            o = ch // (C // og)
            for i in range(oh):
                for j in range(ow):
                    for a in range(kh):
                        for bb in range(kw):
                            v = samp(n, ch, i * sh - p[0] + a * dh + off[n, o, a, bb, 0, i, j], j * sw - p[1] + bb * dw + off[n, o, a, bb, 1, i, j]) * mk[n, o, a, bb, i, j]
                            gi = ch // cg
                            for m in range(gi * (M // g), (gi + 1) * (M // g)):
                                r[n, m, i, j] += v * w[m, ch - gi * cg, a, bb]
    if b is not None:
        r += b.reshape(1, -1, 1, 1)
    return r.astype(x.dtype)


def pool(c, x, kind):
    k = c.get("kernel_shape"); n = len(k)
    st = c.get("strides") or [1] * n
    dil = c.get("dilations") or [1] * n
    p = auto_pads(c, x.shape[2:], k, st, dil)
    cm = c.get("ceil_mode", 0)
    o = []
    for i in range(n):
        L = x.shape[2 + i] + p[i] + p[i + n] - dil[i] * (k[i] - 1) - 1
        v = (-(-L // st[i]) if cm else L // st[i]) + 1
        if cm and (v - 1) * st[i] >= x.shape[2 + i] + p[i]:
            v -= 1
        o.append(v)
    r = np.zeros(list(x.shape[:2]) + o)
    for oi in np.ndindex(*o):
        vals, cnt = [], 0
        for ki in np.ndindex(*k):
            q = [oi[d] * st[d] - p[d] + ki[d] * dil[d] for d in range(n)]
            if all(0 <= q[d] < x.shape[2 + d] for d in range(n)):
                vals.append(x[(slice(None), slice(None)) + tuple(q)].astype(np.float64))
                cnt += 1
            elif c.get("count_include_pad", 0) and all(-p[d] <= q[d] < x.shape[2 + d] + p[d + n] for d in range(n)):
                cnt += 1
        if kind == "max":
            r[(slice(None), slice(None)) + oi] = np.max(vals, 0) if vals else -np.inf
        else:
            r[(slice(None), slice(None)) + oi] = np.sum(vals, 0) / cnt if vals else 0
    return r.astype(x.dtype)


@op("MaxPool")
def _(c, x):
    if len([o for o in c.n.outputs if o]) > 1:
        raise Unsupported("MaxPool indices")
    return pool(c, x, "max")


@op("AveragePool")
def _(c, x): return pool(c, x, "avg")


@op("GlobalAveragePool")
def _(c, x): return np.mean(x.astype(np.float64), tuple(range(2, x.ndim)), keepdims=True).astype(x.dtype)


def chan(v, nd):
    return v.reshape([1, -1] + [1] * (nd - 2)).astype(np.float64)


@op("BatchNormalization")
def _(c, x, s, b, m, v):
    if c.get("training_mode", 0):
        raise Unsupported("training")
    y = (x.astype(np.float64) - chan(m, x.ndim)) / np.sqrt(chan(v, x.ndim) + np.float32(c.get("epsilon", 1e-5)))
    return (y * chan(s, x.ndim) + chan(b, x.ndim)).astype(x.dtype)


@op("InstanceNormalization")
def _(c, x, s, b):
    a = tuple(range(2, x.ndim)); y = x.astype(np.float64)
    y = (y - y.mean(a, keepdims=True)) / np.sqrt(y.var(a, keepdims=True) + c.get("epsilon", 1e-5))
    return (y * chan(s, x.ndim) + chan(b, x.ndim)).astype(x.dtype)


@op("GroupNormalization")
def _(c, x, s, b):
    g = c.get("num_groups"); sh = x.shape
    y = x.astype(np.float64).reshape(sh[0], g, -1)
    y = (y - y.mean(2, keepdims=True)) / np.sqrt(y.var(2, keepdims=True) + c.get("epsilon", 1e-5))
    if c.opset < 21 and len(s) == g and g != sh[1]:
        y = y * s.reshape(1, g, 1) + b.reshape(1, g, 1)
        return y.reshape(sh).astype(x.dtype)
    return (y.reshape(sh) * chan(s, x.ndim) + chan(b, x.ndim)).astype(x.dtype)


@op("LayerNormalization")
def _(c, x, s, b=None):
    a = norm(c.get("axis", -1), x.ndim)
    ax = tuple(range(a, x.ndim)); y = x.astype(np.float64)
    mu = y.mean(ax, keepdims=True)
    inv = 1 / np.sqrt(y.var(ax, keepdims=True) + c.get("epsilon", 1e-5))
    r = (y - mu) * inv * s
    if b is not None:
        r = r + b
    return [r.astype(x.dtype), mu.astype(x.dtype), inv.astype(x.dtype)]


@op("Resize")
def _(c, x, roi=None, scales=None, sizes=None):
    mode = c.get("mode", "nearest")
    ct = c.get("coordinate_transformation_mode", "half_pixel")
    nm = c.get("nearest_mode", "round_prefer_floor")
    if c.opset < 11:
        scales, ct, nm = roi, "asymmetric", "floor"
    ax = [norm(a, x.ndim) for a in (c.get("axes") or range(x.ndim))]
    n = x.ndim
    sc, out = [1.0] * n, list(x.shape)
    if sizes is not None and np.asarray(sizes).size:
        for a, s in zip(ax, ints(sizes)):
            out[a] = s
            sc[a] = s / x.shape[a]
    else:
        for a, s in zip(ax, np.asarray(scales).reshape(-1)):
            sc[a] = float(s)
            out[a] = int(math.floor(x.shape[a] * float(s)))
    y = x.astype(np.float64)
    for d in range(n):
        if out[d] == x.shape[d] and sc[d] == 1.0:
            continue
        L, O, s = x.shape[d], out[d], sc[d]
        m = np.zeros((O, L))
        for o in range(O):
            if ct == "half_pixel":
                q = (o + 0.5) / s - 0.5
            elif ct == "pytorch_half_pixel":
                q = (o + 0.5) / s - 0.5 if O > 1 else 0.0
            elif ct == "asymmetric":
                q = o / s
            elif ct == "align_corners":
                q = 0.0 if O == 1 else o * (L - 1) / (O - 1)
            else:
                raise Unsupported(ct)
            if mode == "nearest":
                r = {"floor": math.floor, "ceil": math.ceil, "round_prefer_floor": lambda v: math.ceil(v - 0.5),
                     "round_prefer_ceil": lambda v: math.floor(v + 0.5)}[nm](q)
                m[o, min(max(r, 0), L - 1)] += 1
            elif mode == "linear":
                f = math.floor(q); t = q - f
                m[o, min(max(f, 0), L - 1)] += 1 - t
                m[o, min(max(f + 1, 0), L - 1)] += t
            elif mode == "cubic":
                A = c.get("cubic_coeff_a", -0.75)
                if c.get("exclude_outside", 0):
                    raise Unsupported("exclude_outside")
                f = math.floor(q); t = q - f
                w = [((A * (t + 1) - 5 * A) * (t + 1) + 8 * A) * (t + 1) - 4 * A, ((A + 2) * t - (A + 3)) * t * t + 1,
                     ((A + 2) * (1 - t) - (A + 3)) * (1 - t)**2 + 1, ((A * (2 - t) - 5 * A) * (2 - t) + 8 * A) * (2 - t) - 4 * A]
                for j in range(4):
                    m[o, min(max(f - 1 + j, 0), L - 1)] += w[j]
        y = np.moveaxis(np.tensordot(m, y, ([1], [d])), 0, d)
    return y.astype(x.dtype)


@op("GridSample")
def _(c, x, grid):
    mode = c.get("mode", "linear"); pm = c.get("padding_mode", "zeros"); al = c.get("align_corners", 0)
    N, C, H, W = x.shape
    Ho, Wo = grid.shape[1:3]
    r = np.zeros((N, C, Ho, Wo))

    def den(v, L):
        return (v + 1) / 2 * (L - 1) if al else ((v + 1) * L - 1) / 2

    def refl(v, L):
        lo, hi = (0, L - 1) if al else (-0.5, L - 0.5)
        rng = hi - lo
        if rng == 0:
            return 0.0
        v = abs(v - lo) % (2 * rng)
        return lo + (v if v <= rng else 2 * rng - v)

    def pix(n, yy, xx):
        if pm == "border" or pm == "reflection":
            return x[n, :, min(max(yy, 0), H - 1), min(max(xx, 0), W - 1)].astype(np.float64)
        if 0 <= yy < H and 0 <= xx < W:
            return x[n, :, yy, xx].astype(np.float64)
        return np.zeros(C)
    for n in range(N):
        for i in range(Ho):
            for j in range(Wo):
                px, py = den(float(grid[n, i, j, 0]), W), den(float(grid[n, i, j, 1]), H)
                if pm == "border":
                    px, py = min(max(px, 0), W - 1), min(max(py, 0), H - 1)
                elif pm == "reflection":
                    px, py = refl(px, W), refl(py, H)
                    px, py = min(max(px, 0), W - 1), min(max(py, 0), H - 1)
                if mode == "nearest":
                    r[n, :, i, j] = pix(n, int(np.rint(py)), int(np.rint(px)))
                elif mode in ("linear", "bilinear"):
                    y0, x0 = math.floor(py), math.floor(px)
                    ty, tx = py - y0, px - x0
                    r[n, :, i, j] = (1 - ty) * ((1 - tx) * pix(n, y0, x0) + tx * pix(n, y0, x0 + 1)) + ty * ((1 - tx) * pix(n, y0 + 1, x0) + tx * pix(n, y0 + 1, x0 + 1))
                else:
                    raise Unsupported("grid cubic")
    return r.astype(x.dtype)


# ---- recurrent
def actf(name, alpha=None, beta=None):
    n = name.lower()
    d = dict(sigmoid=sigmoid, tanh=np.tanh, relu=lambda v: np.maximum(v, 0),
             hardsigmoid=lambda v: np.clip((0.2 if alpha is None else alpha) * v + (0.5 if beta is None else beta), 0, 1),
             leakyrelu=lambda v: np.where(v < 0, (0.01 if alpha is None else alpha) * v, v), softsign=lambda v: v / (1 + np.abs(v)), softplus=softplus,
             elu=lambda v: np.where(v < 0, (1.0 if alpha is None else alpha) * np.expm1(v), v),
             affine=lambda v: alpha * v + beta)
    return d[n]


def rnn_common(c, X, W, R, B, h0, gates, defaults):
    layout = c.get("layout", 0)
    if layout:
        X = X.transpose(1, 0, 2)
        h0 = h0.transpose(1, 0, 2) if h0 is not None else None
    S, N, _ = X.shape
    H = c.get("hidden_size", R.shape[-1])
    D = W.shape[0]
    acts = c.get("activations") or defaults * D
    B = B.astype(np.float64) if B is not None else np.zeros((D, 2 * gates * H))
    h0 = h0.astype(np.float64) if h0 is not None else np.zeros((D, N, H))
    clip = c.get("clip")
    cl = (lambda v: np.clip(v, -clip, clip)) if clip else (lambda v: v)
    dirs = [False, True] if c.get("direction", "forward") == "bidirectional" else [c.get("direction", "forward") == "reverse"]
    return X.astype(np.float64), W.astype(np.float64), R.astype(np.float64), B, h0, S, N, H, D, acts, cl, dirs, layout


def rnn_out(Y, layout, *states):
    if layout:
        return [Y.transpose(2, 0, 1, 3)] + [s.transpose(1, 0, 2) for s in states]
    return [Y] + list(states)


def seqs(rev, S):
    return range(S - 1, -1, -1) if rev else range(S)


def nolens(lens, S):
    if lens is not None and any(int(v) != S for v in lens):
        raise Unsupported("sequence_lens")


@op("RNN")
def _(c, X, W, R, B=None, lens=None, h0=None):
    dt = X.dtype
    X, W, R, B, h0, S, N, H, D, acts, cl, dirs, lay = rnn_common(c, X, W, R, B, h0, 1, ["Tanh"])
    nolens(lens, S)
    Y = np.zeros((S, D, N, H)); Yh = np.zeros((D, N, H))
    for d in range(D):
        f = actf(acts[d]); h = h0[d]
        for t in seqs(dirs[d], S):
            h = f(cl(X[t] @ W[d].T + h @ R[d].T + B[d, :H] + B[d, H:]))
            Y[t, d] = h
        Yh[d] = h
    return [v.astype(dt) for v in rnn_out(Y, lay, Yh)]


@op("GRU")
def _(c, X, W, R, B=None, lens=None, h0=None):
    dt = X.dtype
    X, W, R, B, h0, S, N, H, D, acts, cl, dirs, lay = rnn_common(c, X, W, R, B, h0, 3, ["Sigmoid", "Tanh"])
    nolens(lens, S)
    Y = np.zeros((S, D, N, H)); Yh = np.zeros((D, N, H))
    for d in range(D):
        f, g = actf(acts[2 * d]), actf(acts[2 * d + 1]); h = h0[d]
        Wz, Wr, Wh = np.split(W[d], 3); Rz, Rr, Rh = np.split(R[d], 3)
        bz, br, bh, rz, rr, rh = np.split(B[d], 6)
        for t in seqs(dirs[d], S):
            z = f(cl(X[t] @ Wz.T + h @ Rz.T + bz + rz))
            r = f(cl(X[t] @ Wr.T + h @ Rr.T + br + rr))
            if c.get("linear_before_reset", 0):
                q = g(cl(X[t] @ Wh.T + r * (h @ Rh.T + rh) + bh))
            else:
                q = g(cl(X[t] @ Wh.T + (r * h) @ Rh.T + rh + bh))
            h = (1 - z) * q + z * h
            Y[t, d] = h
        Yh[d] = h
    return [v.astype(dt) for v in rnn_out(Y, lay, Yh)]


@op("LSTM")
def _(c, X, W, R, B=None, lens=None, h0=None, c0=None, P=None):
    dt = X.dtype
    if c.get("layout", 0) and c0 is not None:
        c0 = c0.transpose(1, 0, 2)
    X, W, R, B, h0, S, N, H, D, acts, cl, dirs, lay = rnn_common(c, X, W, R, B, h0, 4, ["Sigmoid", "Tanh", "Tanh"])
    nolens(lens, S)
    c0 = c0.astype(np.float64) if c0 is not None else np.zeros((D, N, H))
    P = P.astype(np.float64) if P is not None else np.zeros((D, 3 * H))
    Y = np.zeros((S, D, N, H)); Yh = np.zeros((D, N, H)); Yc = np.zeros((D, N, H))
    for d in range(D):
        f, g, hh = (actf(a) for a in acts[3 * d:3 * d + 3]); h, cc = h0[d], c0[d]
        pi, po, pf = np.split(P[d], 3)
        for t in seqs(dirs[d], S):
            q = X[t] @ W[d].T + h @ R[d].T + B[d, :4 * H] + B[d, 4 * H:]
            i, o, ff, ct = np.split(q, 4, 1)
            i = f(cl(i + pi * cc)); ff = f(cl(ff + pf * cc))
            if c.get("input_forget", 0):
                ff = 1 - i
            cc = ff * cc + i * g(cl(ct))
            o = f(cl(o + po * cc))
            h = o * hh(cc)
            Y[t, d] = h
        Yh[d], Yc[d] = h, cc
    return [v.astype(dt) for v in rnn_out(Y, lay, Yh, Yc)]


# ---------------------------------------------------------------- control flow
@op("If")
def _(c, cond):
    g = c.a["then_branch"] if bool(np.asarray(cond).reshape(-1)[0]) else c.a["else_branch"]
    return run_graph(g, c.env, c.opset)[0]


@op("Loop")
def _(c, M, cond, *carried):
    body = c.a["body"]
    n = None if M is None else int(np.asarray(M).reshape(-1)[0])
    k = len(carried)
    st = list(carried)
    go = True if cond is None else bool(np.asarray(cond).reshape(-1)[0])
    scans = [[] for _ in range(len(body.outputs) - 1 - k)]
    i = 0
    while go and (n is None or i < n):
        if i > 1000:
            raise Unsupported("runaway loop")
        env = dict(c.env)
        names = [v.name for v in body.inputs]
        env[names[0]] = np.array(i, np.int64)
        env[names[1]] = np.array(go, bool)
        for nm, v in zip(names[2:], st):
            env[nm] = v
        out = run_graph(body, env, c.opset)[0]
        go = bool(np.asarray(out[0]).reshape(-1)[0])
        st = out[1:1 + k]
        for s, v in zip(scans, out[1 + k:]):
            s.append(v)
        i += 1
    return list(st) + [np.stack(s) if s else np.zeros((0,), np.float32) for s in scans]


@op("Scan")
def _(c, *x):
    body = c.a["body"]; m = c.a["num_scan_inputs"]
    k = len(x) - m
    st, sc = list(x[:k]), list(x[k:])
    names = [v.name for v in body.inputs]
    no = len(body.outputs) - k
    ia = c.a.get("scan_input_axes") or [0] * m
    idr = c.a.get("scan_input_directions") or [0] * m
    oa = c.a.get("scan_output_axes") or [0] * no
    odr = c.a.get("scan_output_directions") or [0] * no
    T = sc[0].shape[ia[0]]
    outs = [[] for _ in range(no)]
    for t in range(T):
        env = dict(c.env)
        for nm, v in zip(names, st):
            env[nm] = v
        for j, nm in enumerate(names[k:]):
            env[nm] = np.take(sc[j], T - 1 - t if idr[j] else t, ia[j])
        o = run_graph(body, env, c.opset)[0]
        st = o[:k]
        for q, v in zip(outs, o[k:]):
            q.append(v)
    return list(st) + [np.stack(q[::-1] if odr[j] else q, oa[j]) for j, q in enumerate(outs)]
