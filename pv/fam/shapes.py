"""C06: values made of tensor shapes, and rank-0 values, through arithmetic and into every operator that consumes them."""
import numpy as np
from ..gen import *
from .. import pb
from .layers import ri

REL = {"Equal": np.equal, "Greater": np.greater, "Less": np.less, "GreaterOrEqual": np.greater_equal, "LessOrEqual": np.less_equal}
BIN = {"Add": np.add, "Sub": np.subtract, "Mul": np.multiply, "Div": lambda a, b: (np.trunc(a / b)).astype(a.dtype)}
NBIN = {**BIN, "Mod": np.mod, "BitwiseAnd": np.bitwise_and, "BitwiseOr": np.bitwise_or, "BitwiseXor": np.bitwise_xor}


class P:
    """A value of rank 0 or 1 with the numbers it has in each set; kind: S a shape, N a number computed from one, T a rank-1 tensor, C a constant."""

    def __init__(self, n, v, kind):
        self.n, self.v, self.kind = n, [np.asarray(a) for a in v], kind
        self.direct = self.hidden = False

    @property
    def dt(self):
        return self.v[0].dtype

    @property
    def r(self):
        return self.v[0].ndim

    @property
    def len(self):
        return self.v[0].shape[0] if self.r else None


class B:
    def __init__(self, rng, opset=None):
        self.rng, self.m = rng, M(rng, opset)
        self.pool, self.xs = [], []

    def x(self, lo=1, hi=4, p=0.6, dt=f32, dims=None):
        d = symbolic(self.rng, self.m, dims or rshape(self.rng, lo, hi, 1, 4), p)
        n = self.m.inp(dt, d, -3, 3)
        self.xs.append((n, d))
        return n, d

    def conc(self, d):
        return [np.array([self.m.dim(q)[s] if isinstance(q, str) else q for q in d], i64) for s in range(self.m.nsets)]

    def add(self, op, ins, f, kind, **at):
        """f: numpy function of the concrete operands"""
        with np.errstate(all="ignore"):
            v = [np.asarray(f(*[i.v[s] for i in ins])) for s in range(self.m.nsets)]
        if any(not np.isfinite(a).all() or np.abs(a).max(initial=0) > 10**6 for a in v if a.dtype.kind != "b"):
            return None
        q = P(self.m.node(op, [i.n for i in ins], **at), v, kind)
        self.pool.append(q)
        return q

    def shape(self, x=None):
        n, d = x or pick(self.rng, self.xs)
        c = self.conc(d)
        at = {}
        r = len(d)
        if self.m.opset >= 15 and chance(self.rng, 0.4):
            s, e = ri(self.rng, -r - 1, r), pick(self.rng, [None, ri(self.rng, -r, r + 2)])
            k = [q[max(s + r, 0) if s < 0 else s:r if e is None else e + r if e < 0 else e] for q in c]
            if len(k[0]):
                c, at = k, dict(start=s) if e is None else dict(start=s, end=e)
        q = P(self.m.node("Shape", [n], **at), c, "S")
        q.direct = True
        self.pool.append(q)
        return q

    def const(self, v, dt=i64):
        a = np.asarray(v, dt)
        return P(self.m.const(a), [a] * self.m.nsets, "C")

    def of(self, kinds="SNT", dt=i64, **k):
        r = [q for q in self.pool if q.kind in kinds and q.dt == dt and all(getattr(q, a) == b for a, b in k.items())]
        return pick(self.rng, r) if r else None


ON = dict(binop=8, nbin=3, gather=3, gathers=5, rgather=1, slice=3, concat=4, unsq=2, cast=3, rel=3, size=0, where=2, sq=2, logic=1, un=1, reduce=2, sos=1, filled=1)
NCAST = (i64, f32, f32, i32, np.float64, np.bool_)


def step(b):
    rng, m = b.rng, b.m
    k = pick(rng, [q for q, w in ON.items() for _ in range(w)])
    S = b.of("S")
    if k in ("gather", "gathers", "rgather", "slice") and S is None:
        return
    if k == "gathers":
        return b.add("Gather", [S, b.const(ri(rng, -S.len, S.len - 1))], lambda a, j: a[j], "N", axis=0)
    if k == "gather":
        ix = [ri(rng, -S.len, S.len - 1) for _ in range(ri(rng, 1, 3))]
        return b.add("Gather", [S, b.const(ix)], lambda a, j: a[j], "S", axis=0)
    if k == "rgather":  # indices known at run time only
        n = ri(rng, 1, 3)
        ix = [rng.integers(-S.len, S.len, n).astype(i64) for _ in range(m.nsets)]
        i = m.inp(i64, [n], fn=lambda g, s, q: ix[q])
        # behind arithmetic with a constant, what needs the length of the result refuses it (the constant becomes a shape only later)
        q = b.add("Gather", [S, P(i, ix, "T")], lambda a, j: a[j], "S" if S.direct else "T", axis=0)
        q.hidden = True
        return q
    if k == "slice":
        n = S.len
        if n < 2:
            return
        s = ri(rng, -n, n - 1)
        s0 = s % n
        e = ri(rng, s0 + 1, n + 1)
        e_ = pick(rng, [e, e - n if e < n else 2**63 - 1])
        st = ri(rng, 1, 2)
        ins = [S, b.const([s]), b.const([e_]), b.const([0])]
        if chance(rng, 0.3):
            ins.append(b.const([st]))
        else:
            st = 1
        return b.add("Slice", ins, lambda a, *_: a[s0:e:st], "S")
    if k == "concat":
        parts = []
        for _ in range(ri(rng, 2, 3)):
            r = rng.random()
            if r < 0.25:
                parts.append(b.const([ri(rng, 1, 5) for _ in range(ri(rng, 1, 2))]))
            elif r < 0.55 and (q := b.of("N")) is not None:
                parts.append(b.add("Unsqueeze", [q, b.const([0])], lambda a, _: a.reshape(1), "S"))
            elif S is not None:
                parts.append(b.of("S"))
        if len(parts) < 2 or all(p.kind == "C" for p in parts) or sum(p.len for p in parts) > 7:
            return
        return b.add("Concat", parts, lambda *a: np.concatenate(a), "S", axis=0)
    if k == "unsq":
        q = b.of("N")
        return q and b.add("Unsqueeze", [q, b.const([0])], lambda a, _: a.reshape(1), "S")
    if k == "sq":
        q = b.of("S", len=1)
        return q and b.add("Squeeze", [q] + [b.const([0])], lambda a, *_: a.reshape(()), "N")
    if k == "sos":  # how many dimensions
        return S and b.add("Shape", [S], lambda a: np.array([len(a)], i64), "S")
    if k == "filled":
        v = ri(rng, 0, 4)
        if S and chance(rng, 0.4):
            n = S.len
            l = b.add("Shape", [S], lambda a: np.array([len(a)], i64), "S")
            return b.add("ConstantOfShape", [l], lambda _: np.full(n, v, i64), "T", value=pb.Tensor("", np.array([v], i64)))
        n = ri(rng, 1, 4)
        l = b.const([n])
        return b.add("ConstantOfShape", [l], lambda _: np.full(n, v, i64), "S", value=pb.Tensor("", np.array([v], i64)))
    if k == "size":
        n, d = pick(rng, b.xs)
        q = P(m.node("Size", [n]), [np.asarray(int(np.prod(q)), i64) for q in b.conc(d)], "N")
        b.pool.append(q)
        return q
    if k == "cast":
        q = pick(rng, [q for q in b.pool])
        if q.kind == "S":
            to = pick(rng, [f32, f32, np.float64, i64, np.bool_])
            return b.add("Cast", [q], lambda a: a.astype(to), "S" if to == i64 else "T", to=pb.NP2PB[np.dtype(to)])
        to = pick(rng, NCAST if q.kind == "N" else (f32, i64, f32 if q.hidden else i32, np.bool_))
        return b.add("Cast", [q], lambda a: a.astype(to), q.kind, to=pb.NP2PB[np.dtype(to)])
    if k == "binop":
        q = b.of("SN", pick(rng, [i64, i64, i64, f32])) or b.of("SN")
        if q is None:
            return
        op = pick(rng, list(BIN))
        cand = [p for p in b.pool if p.kind in "SN" and p.dt == q.dt and (p.len == q.len or p.r == 0 or q.r == 0 or 1 in (p.len, q.len))]
        p = pick(rng, cand) if chance(rng, 0.55) else b.const(vals(rng, q.dt, pick(rng, [q.v[0].shape, q.v[0].shape, (), (1,), (3 if q.len in (None, 1) else q.len,)]), 1, 5), q.dt)
        if q.r == 0 and p.kind == "C" and p.r:
            f = {"Add": np.add, "Sub": np.subtract, "Mul": np.multiply}
            op = pick(rng, list(f))
            return b.add(op, [q, p] if chance(rng, 0.5) else [p, q], f[op], "T")
        kind = "S" if "S" in q.kind + p.kind else "N"
        if chance(rng, 0.4):
            q, p = p, q
        if op == "Div" and any((v == 0).any() for v in p.v):
            op = "Sub"
        f = BIN[op] if q.dt.kind != "f" or op != "Div" else np.divide
        return b.add(op, [q, p], f, kind)
    if k == "nbin":
        q = b.of("N")
        if q is None:
            return
        op = pick(rng, ["Mod", "Mod", "BitwiseAnd", "BitwiseOr", "BitwiseXor"])
        p = b.of("N") if chance(rng, 0.5) else b.const(ri(rng, 1, 7))
        if m.opset < 18 and op != "Mod" or any((v <= 0).any() for v in p.v) or any((v < 0).any() for v in q.v):
            return
        return b.add(op, [q, p], NBIN[op], "N")
    if k == "un":
        q = b.of("N", pick(rng, [i64, f32]))
        if q is None:
            return
        op = pick(rng, ["Neg", "Abs"] + (["Sqrt"] if q.dt.kind == "f" else []))
        return b.add(op, [q], {"Neg": np.negative, "Abs": np.abs, "Sqrt": np.sqrt}[op], "N")
    if k == "rel":
        q = pick(rng, [q for q in b.pool if q.kind in "SN"])
        op = pick(rng, list(REL))
        if q.dt.kind == "b" or (q.dt.kind == "f" and m.opset < 11):
            return
        if q.kind == "S":
            p = b.const(vals(rng, q.dt, q.v[0].shape, 1, 4), q.dt)
        else:
            cand = [p for p in b.pool if p.kind == "N" and p.dt == q.dt]
            p = pick(rng, cand) if chance(rng, 0.5) else b.const(vals(rng, q.dt, (), 1, 4), q.dt)
        kind = "T" if q.kind == "S" else "N"
        if chance(rng, 0.3):
            q, p = p, q
        return b.add(op, [q, p], REL[op], kind)
    if k == "where":
        c = b.of("N", bool)
        if c is None:
            return
        q = b.of("SN")
        if q is None:
            return
        p = b.of(q.kind, i64, len=q.len) if q.kind == "S" or chance(rng, 0.5) else b.const(vals(rng, q.dt, q.v[0].shape, 1, 4), q.dt)
        return b.add("Where", [c, q, p] if chance(rng, 0.5) else [c, p, q], np.where, q.kind)
    if k == "logic":
        c = b.of("NT", bool)
        return c and b.add("Not", [c], np.logical_not, c.kind)
    if k == "reduce":
        q = b.of("T", f32, r=1)
        if q is None:
            return
        op = pick(rng, ["ReduceSum", "ReduceProd", "ReduceMax", "ReduceMin", "ReduceMean"])
        f = {"ReduceSum": np.sum, "ReduceProd": np.prod, "ReduceMax": np.max, "ReduceMin": np.min, "ReduceMean": np.mean}[op]
        return b.add(op, [q], lambda a: f(a, axis=0, keepdims=True).astype(a.dtype), "T", keepdims=1)


def start(rng, opset=None):
    b = B(rng, opset)
    for _ in range(ri(rng, 1, 2)):
        b.x()
    for _ in range(ri(rng, 1, 2)):
        b.shape()
    return b


def arith(rng):
    """Expressions over shapes and numbers, whose values are outputs."""
    b = start(rng)
    for _ in range(ri(rng, 1, 9)):
        step(b)
    qs = [q for q in b.pool if q.n.startswith("y")]
    qs = [qs[-1]] + [q for q in qs[:-1] if chance(rng, 0.3)]
    b.m.out(*dict.fromkeys(q.n for q in qs))
    return b.m.build(rtol=1e-5, atol=1e-5)


def positive(b, q):
    """Maps numbers of any sign to 1..4."""
    if all((v > 0).all() and (v < 5).all() for v in q.v):
        return q
    raise Skip


def cat(b, parts):
    return parts[0] if len(parts) == 1 else b.add("Concat", parts, lambda *a: np.concatenate(a), "S", axis=0)


KINDS = ["reshape", "reshape_flat", "reshape_merge", "reshape_like", "expand", "expand", "expand1", "cos", "cos", "range", "slice", "slice", "gather", "arange_gather", "resize", "trilu", "scalar_mul", "cumsum",
         "where_t", "add_vec", "cast_vec", "reshape_expr", "mat", "range_n"]


def consume(rng):
    """Computed shapes and numbers as operands of the operators that take them."""
    b = start(rng)
    for _ in range(ri(rng, 0, 3)):
        step(b)
    m = b.m
    n, d = pick(rng, b.xs)
    r = len(d)
    dims = b.conc(d)
    k = pick(rng, KINDS)
    sh = P(m.node("Shape", [n]), dims, "S")
    b.pool.append(sh)

    def dim(i, vec=False):
        if vec and chance(rng, 0.4):
            return b.add("Slice", [sh, b.const([i]), b.const([i + 1]), b.const([0])], lambda a, *_: a[i:i + 1], "S")
        return b.add("Gather", [sh, b.const([i] if vec else i)], lambda a, j: a[j], "S" if vec else "N", axis=0)

    def vec(q):
        return b.add("Unsqueeze", [q, b.const([0])], lambda a, _: a.reshape(1), "S")

    def bin(op, p, q):
        return b.add(op, [p, q], {**BIN, "Div": lambda a, c: a // c}[op], "S" if "S" in p.kind + q.kind else "N")
    o = None
    if k == "reshape":
        if r < 2:
            raise Skip
        j = ri(rng, 0, r - 1)
        parts = [vec(dim(i)) if chance(rng, 0.5) else dim(i, True) for i in range(r)]
        parts[j] = b.const([-1])
        o = m.node("Reshape", [n, cat(b, parts).n])
    elif k == "reshape_flat":
        o = m.node("Reshape", [n, cat(b, [dim(0, True), b.const([-1])]).n])
    elif k == "reshape_merge":
        if r < 2:
            raise Skip
        p = bin("Mul", dim(0), dim(1))
        o = m.node("Reshape", [n, cat(b, [vec(p)] + [dim(i, True) for i in range(2, r)]).n])
    elif k == "reshape_expr":  # twice as many rows of half the length
        if r < 2 or any(v[-1] % 2 for v in dims):
            raise Skip
        o = m.node("Reshape", [n, cat(b, [vec(bin("Mul", dim(0), b.const(2)))] + [dim(i, True) for i in range(1, r - 1)] + [bin("Div", dim(r - 1, True), b.const([2]))]).n])
    elif k == "reshape_like":
        o = m.node("Reshape", [m.node("Reshape", [n, m.cs([-1])]), sh.n])
    elif k == "expand":
        q = positive(b, b.of("S"))
        o = m.node("Expand", [m.const(vals(rng, pick(rng, [f32, i64]), (1,) * ri(rng, 1, q.len))), q.n])
    elif k == "expand1":
        o = m.node("Expand", [m.inp(f32, [1] * ri(rng, 1, r), -3, 3), sh.n])
    elif k == "cos":
        q = positive(b, b.of("S"))
        dt = pick(rng, [f32, i64, i32, b1])
        at = {} if chance(rng, 0.2) else dict(value=pb.Tensor("", vals(rng, dt, (1,), -5, 5)))
        o = m.node("ConstantOfShape", [q.n], **at)
        if q.len == 1 and at and dt in (i64,):
            raise Skip
    elif k == "range":
        st, li, de = b.const(ri(rng, -2, 2)), dim(ri(rng, 0, r - 1)), b.const(ri(rng, 1, 2))
        if chance(rng, 0.3):
            st = dim(ri(rng, 0, r - 1))
            li = bin("Add", st, b.const(ri(rng, 1, 5)))
        if chance(rng, 0.2):
            li = bin("Mul", li, b.const(2))
        if not all((a < c).all() for a, c in zip(st.v, li.v)):
            raise Skip
        o = m.node("Range", [st.n, li.n, de.n])
    elif k == "range_n":
        q = b.of("N")
        if q is None or not all(0 < v < 30 for v in q.v):
            raise Skip
        o = m.node("Range", [b.const(0).n, q.n, b.const(1).n])
    elif k == "slice":
        j = ri(rng, 0, r - 1)
        e = vec(dim(j)) if chance(rng, 0.6) else dim(j, True)
        s0 = b.const([0])
        if chance(rng, 0.5):
            e = bin("Div", bin("Add", e, b.const([1])), b.const([2]))
        if chance(rng, 0.3):
            s0, e = bin("Sub", e, b.const([1])), b.const([2**31 - 1])
        o = m.node("Slice", [n, s0.n, e.n, m.cs([pick(rng, [j, j - r])])])
    elif k in ("gather", "arange_gather"):
        j = ri(rng, 0, r - 1)
        i = bin("Sub", dim(j), b.const(1))
        if k == "arange_gather":
            i = P(m.node("Range", [b.const(0).n, dim(j).n, b.const(1).n]), [np.arange(int(c[j])) for c in dims], "T")
        o = m.node("Gather", [n, i.n], axis=pick(rng, [j, j - r]))
    elif k == "resize":
        n, d = b.x(dims=[1, ri(rng, 1, 2), ri(rng, 2, 4), ri(rng, 2, 4)])
        dims = b.conc(d)
        sh = P(m.node("Shape", [n]), dims, "S")
        q = bin("Mul", b.add("Slice", [sh, b.const([2]), b.const([4])], lambda a, *_: a[2:4], "S"), b.const([2, 2]))
        z = cat(b, [b.add("Slice", [sh, b.const([0]), b.const([2])], lambda a, *_: a[:2], "S"), q])
        o = m.node("Resize", [n, "", "", z.n], mode="nearest", coordinate_transformation_mode="asymmetric", nearest_mode="floor")
    elif k == "trilu":
        if r < 2:
            raise Skip
        o = m.node("Trilu", [n, b.const(ri(rng, -1, 1)).n])
    elif k == "scalar_mul":
        s = b.add("Cast", [dim(ri(rng, 0, r - 1))], lambda a: a.astype(f32), "N", to=pb.FLOAT)
        if chance(rng, 0.5):
            s = b.add(pick(rng, ["Sqrt", "Neg"]), [s], lambda a: a, "N")
        o = m.node(pick(rng, ["Mul", "Div", "Add", "Sub"]), [n, s.n])
    elif k == "cumsum":
        o = m.node("CumSum", [n, b.const(ri(rng, -r, r - 1)).n])
    elif k == "where_t":  # a decision about sizes used on tensors
        c = b.add(pick(rng, list(REL)), [dim(0), b.const(ri(rng, 1, 4))], lambda a, j: a == j, "N")
        o = m.node("Where", [c.n, n, m.const(vals(rng, f32, pick(rng, [(), (1,)])))])
    elif k == "add_vec":  # shapes meet integer tensors
        q = b.of("S")
        d = ([ri(rng, 1, 3) for _ in range(ri(rng, 1, 2))] if chance(rng, 0.4) else []) + [pick(rng, [q.len, 1])]
        op = pick(rng, ["Add", "Sub", "Mul", "Div", "Greater", "Less", "Equal", "GreaterOrEqual", "LessOrEqual"])
        y = m.inp(i64, d, *((1, 5) if op == "Div" else (-3, 3)))
        o = m.node(op, [y, q.n] if chance(rng, 0.6) and (op != "Div" or all((v > 0).all() for v in q.v)) else [q.n, y])
    elif k == "cast_vec":
        c = b.add("Cast", [b.of("S")], lambda a: a.astype(f32), "T", to=pb.FLOAT)
        y = m.inp(f32, [2, c.len], -3, 3)
        o = m.node(pick(rng, ["Mul", "Div", "Add", "Sub"]), [y, c.n])
    elif k == "mat":
        c = b.add("Cast", [b.of("S")], lambda a: a.astype(f32), "T", to=pb.FLOAT)
        o = m.node("MatMul", [m.inp(f32, [ri(rng, 1, 3), c.len], -3, 3), m.node("Unsqueeze", [c.n, m.cs([1])])])
    m.out(o)
    if chance(rng, 0.2):
        m.out(sh.n)
    return m.build(rtol=1e-4, atol=1e-4)


def scalars(rng):
    """Rank-0 inputs and constants through unary and binary operators and into tensors."""
    m = M(rng)
    dt = pick(rng, [f32, f32, i64, i32, f64])
    s = m.inp(dt, [], 1, 4)
    pool = [s]
    for _ in range(ri(rng, 1, 4)):
        r = rng.random()
        a = pick(rng, pool)
        if r < 0.6:
            c = pick(rng, pool) if chance(rng, 0.4) else m.const(vals(rng, dt, (), 1, 4))
            op = pick(rng, ["Add", "Sub", "Mul", "Div"])
            if op == "Div" and np.dtype(dt).kind == "i":
                op = "Add"
            if op == "Div" and c in pool:
                c = s
            pool.append(m.node(op, [a, c]))
        elif r < 0.8:
            x = m.inp(dt, symbolic(rng, m, rshape(rng, 1, 3, 1, 3)))
            m.out(m.node(pick(rng, ["Add", "Mul", "Sub"]), [x, a] if chance(rng, 0.6) else [a, x]))
        elif dt in (i64, f32, f64):
            pool.append(m.node("Reshape", [m.node("Unsqueeze", [a, m.cs([0])]), m.cs([1])]))
            break
    m.out(pool[-1])
    return m.build(rtol=1e-3, atol=1e-4)


def _pin(f, opset=19):
    def build():
        m = M(np.random.default_rng(3), opset)
        x = m.inp(f32, [2, "a", 3])
        s = m.node("Shape", [x])
        g = m.node("Gather", [s, m.const(np.asarray(1, i64))], axis=0)
        r = f(m, x, s, g)
        m.out(*(r if isinstance(r, list) else [r]))
        return m.build()
    return build


PINS = {
    "shape-greater": _pin(lambda m, x, s, g: m.node("Greater", [s, m.node("Shape", [m.node("Transpose", [x], perm=[2, 1, 0])])])),
    "shape-equal": _pin(lambda m, x, s, g: m.node("Equal", [s, m.node("Shape", [m.node("Transpose", [x], perm=[2, 1, 0])])])),
    "shape-cast-int32": _pin(lambda m, x, s, g: m.node("Cast", [s], to=6)),
    "scalar-reshape-1": _pin(lambda m, x, s, g: m.node("Reshape", [g, m.cs([1])])),
    "scalar-unsqueeze-int32": _pin(lambda m, x, s, g: m.node("Unsqueeze", [m.node("Cast", [g], to=6), m.cs([0])])),
    "size": _pin(lambda m, x, s, g: m.node("Size", [x])),
    "shape-split": _pin(lambda m, x, s, g: m.node("Split", [s, m.cs([1, 2])], 2, axis=0)),
    "shape-tile": _pin(lambda m, x, s, g: m.node("Tile", [s, m.cs([2])])),
    "shape-abs": _pin(lambda m, x, s, g: m.node("Abs", [s])),
    "scalar-relu": _pin(lambda m, x, s, g: m.node("Relu", [m.node("Cast", [g], to=1)])),
    "scalar-elu": _pin(lambda m, x, s, g: m.node("Elu", [m.node("Cast", [g], to=1)])),
    "scalar-log": _pin(lambda m, x, s, g: m.node("Log", [m.node("Cast", [g], to=1)])),
    "scalar-erf": _pin(lambda m, x, s, g: m.node("Erf", [m.node("Cast", [g], to=1)])),
    "scalar-clip": _pin(lambda m, x, s, g: m.node("Clip", [m.node("Cast", [g], to=1), m.const(np.array(1, f32)), m.const(np.array(2, f32))])),
    "scalar-sign": _pin(lambda m, x, s, g: m.node("Sign", [g])),
    "shape-not": _pin(lambda m, x, s, g: m.node("Not", [m.node("Equal", [s, s])])),
    "shape-reverse": _pin(lambda m, x, s, g: m.node("Slice", [s, m.cs([-1]), m.cs([-100]), m.cs([0]), m.cs([-1])])),
}
GENS = [(arith, 8), (consume, 8), (scalars, 3)]
