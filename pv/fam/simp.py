"""C07: patterns the simplification passes look for, near misses of them, and combinations."""
import numpy as np
from ..gen import *
from .. import pb
from .layers import ri

UN = ["Relu", "Ceil", "Floor", "Round", "Sign", "Abs"]


def idem(rng):
    """Chains of (non-)idempotent operators, with extra uses of the intermediate values."""
    m = M(rng)
    x = m.inp(f32, symbolic(rng, m, rshape(rng, 1, 3)), -3, 3)
    vs = [x]
    op = pick(rng, UN)
    for _ in range(ri(rng, 2, 5)):
        o = op if chance(rng, 0.75) else pick(rng, UN + ["Neg", "Tanh", "Exp"])
        vs.append(m.node(o, [vs[-1]]))
        op = o if o in UN else pick(rng, UN)
    m.out(vs[-1])
    for v in vs[1:-1]:
        if chance(rng, 0.25):
            m.out(v)
    if chance(rng, 0.4):
        m.out(m.node("Add", [vs[-1], pick(rng, vs)]))
    return m.build(rtol=1e-3, atol=1e-4)


def ident(rng):
    """Binary operators with constants that are (nearly) identity elements, of many shapes."""
    m = M(rng)
    dt = pick(rng, [f32, f32, i64, i32, f64])
    sh = rshape(rng, 0, 3, 1, 3) if chance(rng, 0.7) else rshape(rng, 1, 3, 3, 6)
    x = m.inp(dt, sh, -4, 4)
    v = m.node("Neg" if chance(rng, 0.5) else "Abs", [x])
    if dt == f32 and chance(rng, 0.25):
        # a constant within 1e-5 of the identity element; what it does is made visible again
        op = pick(rng, ["Add", "Sub", "Mul", "Div"])
        c = (0 if op in ("Add", "Sub") else 1) + pick(rng, [1, -1]) * 2.0 ** -pick(rng, [10, 14, 17])
        w = m.node("Sub", [m.node(op, [v, m.const(np.full(pick(rng, [(), (1,), tuple(sh)]), c, f32))]), v])
        m.out(m.node("Mul", [w, m.const(np.array(2.0 ** 17, f32))]))
        return m.build(rtol=1e-3, atol=0.3)
    if chance(rng, 0.15):
        # a large constant that is an identity element but for one entry
        op = pick(rng, ["Add", "Sub", "Mul", "Div", "Pow"])
        k = rshape(rng, 1, 3, 3, 7)
        c = 0 if op in ("Add", "Sub") else 1
        a = np.full(k, c, dt)
        a.flat[pick(rng, [-1, -1, 0, a.size // 2, int(rng.integers(0, a.size))])] = 2
        x = m.inp(dt, k, -4, 4)
        m.out(m.node("Neg", [m.node(op, [x, m.const(a)])]))
        return m.build(rtol=1e-3, atol=1e-4)
    for _ in range(ri(rng, 1, 3)):
        op = pick(rng, ["Add", "Sub", "Mul", "Div", "Pow"])
        c = 0 if op in ("Add", "Sub") else 1
        r = rng.random()
        if r < 0.15:
            c = 1 - c if op != "Div" else 2
        k = pick(rng, [(), (), (1,), tuple(sh), (1,) * len(sh), tuple(sh[-1:]), (2,) + tuple(sh)[-1:], (1, 1) + tuple(sh)])
        a = np.full(k, c, dt)
        if a.size > 1 and chance(rng, 0.35):
            a.flat[int(rng.integers(0, a.size)) if chance(rng, 0.5) else -1] = 1 - c if op != "Div" else 3
        c = m.const(a)
        swap = chance(rng, 0.35) and op != "Pow"
        if swap and op == "Div":
            swap = False
        try:
            np.broadcast_shapes(tuple(sh), k)
        except ValueError:
            raise Skip
        v = m.node(op, [c, v] if swap else [v, c])
        if len(k) > 0:
            break
    m.out(v)
    if chance(rng, 0.5):
        m.out(m.node("Neg", [v]))
    if chance(rng, 0.4):
        m.out(m.node("Mul", [v, v]))
    return m.build(rtol=1e-3, atol=1e-4)


def cse(rng):
    """Duplicate nodes and nodes that differ in one input, attribute or constant only."""
    m = M(rng)
    sh = [ri(rng, 2, 3), ri(rng, 2, 3)]
    x, y = m.inp(f32, sh), m.inp(f32, sh)

    def one(k):
        r = k % 12
        if r == 0:
            return m.node("Add", [x, y] if chance(rng, 0.5) else [y, x])
        if r == 1:
            return m.node("Sub", [x, y] if chance(rng, 0.5) else [y, x])
        if r == 2:
            return m.node("LeakyRelu", [x], alpha=float(pick(rng, [0.1, 0.2])))
        if r == 3:
            return m.node("Softmax", [x], axis=int(pick(rng, [0, 1, -1])))
        if r == 4:
            return m.node("Transpose", [m.node("Transpose", [pick(rng, [x, y])], perm=[1, 0])], perm=[1, 0])
        if r == 5:
            return m.node("Add", [x, m.const(np.full(pick(rng, [(), (1,)]), pick(rng, [1, 2]), f32))])
        if r == 6:
            return m.node("ReduceSum", [x], keepdims=1) if m.opset >= 13 else m.node("ReduceSum", [x], axes=[pick(rng, [0, 1])])
        if r == 7:
            return m.node("Cast", [m.node("Cast", [x], to=int(pick(rng, [pb.INT64, pb.INT32])))], to=pb.FLOAT)
        if r == 8:
            return m.node("Gather", [x, m.const(np.array([pick(rng, [0, 1])], i64))], axis=int(pick(rng, [0, 1])))
        if r == 9:
            return m.node("Elu", [pick(rng, [x, y])], alpha=float(pick(rng, [1.0, 0.5])))
        if r == 10:
            return m.node("Concat", [x, y] if chance(rng, 0.5) else [y, x], axis=int(pick(rng, [0, 1])))
        return m.node("Max", [x, y] if chance(rng, 0.5) else [x, x])
    k = ri(rng, 0, 11)
    a = [one(k) for _ in range(ri(rng, 2, 4))]
    for v in a:
        r = rng.random()
        if r < 0.4:
            m.out(v)
        elif r < 0.8:
            m.out(m.node(pick(rng, ["Neg", "Tanh", "Neg"]), [v]))
        else:
            m.out(m.node("Neg", [m.node("Neg", [v])]), v)
    return m.build(rtol=1e-3, atol=1e-4)


def cse_multi(rng):
    """Duplicates of nodes with several outputs."""
    m = M(rng)
    sh = [ri(rng, 2, 3), 4]
    x = m.inp(f32, sh)
    same = chance(rng, 0.6)
    for i in range(2):
        if chance(rng, 0.5) or not same:
            k = pick(rng, [1, 2])
            v, ix = m.node("TopK", [x, m.cs([k])], 2, axis=pick(rng, [-1, 1]))
            m.out(*([v, ix] if chance(rng, 0.5) else [m.node("Neg", [v])]))
        else:
            a, b = m.node("Split", [x, m.cs([2, 2] if chance(rng, 0.5) else [1, 3])], 2, axis=1)
            m.out(*([m.node("Neg", [a]), b] if chance(rng, 0.5) else [b]))
    return m.build(rtol=1e-3, atol=1e-4)


BINS = [("MatMul", f32), ("Sub", f32), ("Div", f32), ("Pow", f32), ("Greater", f32), ("Less", f32), ("GreaterOrEqual", f32), ("LessOrEqual", f32), ("Mod", i64), ("Sub", i64), ("Add", f32), ("Mul", f32),
        ("Concat", f32), ("Where", f32), ("Gemm", f32), ("BitShift", u8), ("Max", f32), ("And", b1), ("Or", b1), ("Xor", b1), ("Equal", i64), ("MatMul", f32), ("GatherElements", i64), ("MatMul3", f32)]


def cse_outs(rng):
    """The same operator on the same inputs with another number of outputs, or tensors in its attributes that differ late."""
    m = M(rng)
    if chance(rng, 0.5):
        m.opset = max(m.opset, 13)
        sh = rshape(rng, 1, 3, 1, 3)
        dt = pick(rng, [f32, f32, i64, f64, i32])
        x = m.inp(f32, symbolic(rng, m, sh, 0.6))
        s = m.node("Shape", [x])
        a, b = pick(rng, [(1, -1), (2, -2), (0, 2), (1, 257), (3, 3 + 2**24), (0.5, -0.5), (1, 1), (1, 1.5)])
        ys = [m.node("ConstantOfShape", [s], **({} if k is None else {"value": pb.Tensor("", np.array([k], dt))})) for k in (pick(rng, [a, 0, None]), a, b)]
        rng.shuffle(ys)
        for y in ys:
            m.out(m.node("Neg", [y]))
    else:
        m.opset = pick(rng, [16, 17])
        r = ri(rng, 1, 3)
        a = ri(rng, 0, r - 1)
        sh = list(rshape(rng, r, r, 1, 3))
        sh[a] = 6
        x = m.inp(f32, sh)
        for n in [int(k) for k in rng.permutation([2, 3, 1 if chance(rng, 0.3) else 6])]:
            o = m.node("Split", [x], nout=n, axis=a)
            for v in (o if isinstance(o, list) else [o]):
                m.out(m.node("Neg", [v]) if chance(rng, 0.7) else v)
    return m.build()


def cse_swap(rng):
    """Pairs of binary nodes over the same two runtime values, in the same and in swapped order."""
    m = M(rng, ri(rng, 16, 21))
    op, dt = pick(rng, BINS)
    n = ri(rng, 2, 3)
    sh = [ri(rng, 1, 2), n, n] if op == "MatMul3" or (op == "MatMul" and chance(rng, 0.3)) else [n, n]
    lo, hi = (1, 3) if op in ("Mod", "Div", "Pow", "BitShift") else (0, 1) if op == "GatherElements" else (-3, 3)
    a, b = m.inp(dt, sh, lo, hi), m.inp(dt, sh, lo, hi)
    if chance(rng, 0.3) and dt == f32:
        a, b = [m.node("Abs" if op in ("Div", "Pow") else pick(rng, ["Relu", "Tanh"]) if op != "Div" else "Abs", [v]) for v in (a, b)]
        if op == "Div":
            a, b = m.node("Add", [a, m.const(np.array(1, f32))]), m.node("Add", [b, m.const(np.array(1, f32))])
    at = {"Concat": dict(axis=ri(rng, 0, 1)), "BitShift": dict(direction=pick(rng, ["LEFT", "RIGHT"])), "GatherElements": dict(axis=ri(rng, 0, 1))}.get(op, {})
    c = m.inp(b1, sh) if op == "Where" else None
    ps = [(a, b), (b, a), (a, b), (a, a), (b, b)]
    two = [pick(rng, ps[:2])]
    two.append(two[0][::-1] if chance(rng, 0.6) else pick(rng, ps))
    if chance(rng, 0.3):
        two.append(pick(rng, ps))
    ys = []
    for p in two:
        ys.append(m.node(op.replace("3", ""), ([c] if c else []) + list(p), **at))
    if chance(rng, 0.5) and op not in ("Greater", "Less", "GreaterOrEqual", "LessOrEqual", "And", "Or", "Xor", "Equal", "BitShift"):
        y = m.node("Sub" if op != "Sub" else "Add", ys[:2])
        m.out(y)
        if chance(rng, 0.4):
            m.out(ys[-1])
    else:
        m.out(*dict.fromkeys(ys))
    return m.build(rtol=1e-3, atol=1e-4)


def fold(rng):
    """Arithmetic on constants (of equal, scalar and broadcast shapes) before it meets an input."""
    m = M(rng)
    dt = pick(rng, [f32, f32, i64, i64, i32, f64])
    sh = tuple(rshape(rng, 0, 2, 1, 3))

    def c(s):
        return m.const(vals(rng, dt, s, 1, 6))
    pool = [(c(sh), sh)]
    for _ in range(ri(rng, 1, 4)):
        r = rng.random()
        a, s = pick(rng, pool)
        if r < 0.55:
            o = pick(rng, [s, (), (1,) * max(1, len(s)), s[-1:], tuple(1 if i % 2 else d for i, d in enumerate(s)), s[::-1]])
            try:
                rs = np.broadcast_shapes(s, o)
            except ValueError:
                continue
            ab = [a, c(o)]
            if chance(rng, 0.4):
                ab.reverse()
            a = m.node(pick(rng, ["Add", "Sub", "Mul", "Div"] if dt in (f32, f64) else ["Add", "Sub", "Mul", "Div"]), ab)
            s = tuple(rs)
        elif r < 0.65:
            a = m.node("Neg", [a])
        elif r < 0.72 and dt in (f32, f64):
            a = m.node("Sqrt", [m.node("Abs", [a])])
        elif r < 0.82:
            if dt in (i32, i64) and (len(s) == 1 or len(s) == 0):
                continue  # may be a Shape (from an unsqueezed scalar): Unsqueeze of a Shape is refused
            ax = ri(rng, 0, len(s))
            a = m.node("Unsqueeze", [a, m.cs([ax])])
            s = s[:ax] + (1,) + s[ax:]
        elif r < 0.9 and len(s):
            n = int(np.prod(s))
            col = chance(rng, 0.5)
            a = m.node("Reshape", [a, m.cs([-1, 1] if col else [n])])
            s = (n, 1) if col else (n,)
        elif len(s) == 1:
            a2, s2 = pick(rng, pool)
            if len(s2) != 1:
                continue
            a = m.node("Concat", [a, a2], axis=0)
            s = (s[0] + s2[0],)
        pool.append((a, s))
    a, s = pool[-1]
    x = m.inp(dt, list(s), -3, 3)
    m.out(m.node(pick(rng, ["Add", "Mul"]), [x, a] if chance(rng, 0.5) else [a, x]))
    if chance(rng, 0.2) and len(s):
        m.out(m.node("Add", [pick(rng, pool)[0], m.const(np.array(1, dt))]))
    return m.build(rtol=1e-3, atol=1e-4)


def fold_cast(rng):
    m = M(rng)
    s = tuple(rshape(rng, 0, 2, 1, 3))
    src = pick(rng, [f32, f64, i32, i64, b1, u8])
    v = vals(rng, src, s)
    if src in (f32, f64):
        v = np.round(v * 4) / 4
    a = m.const(v.astype(src))
    dst = pick(rng, [pb.FLOAT, pb.INT64, pb.INT32, pb.DOUBLE])
    a = m.node("Cast", [a], to=dst)
    if chance(rng, 0.4):
        dst = pick(rng, [pb.FLOAT, pb.INT64])
        a = m.node("Cast", [a], to=dst)
    dt = pb.np_dtype(dst) if hasattr(pb, "np_dtype") else {pb.FLOAT: f32, pb.INT64: i64, pb.INT32: i32, pb.DOUBLE: f64}[dst]
    x = m.inp(dt, list(s), -3, 3)
    m.out(m.node("Add", [x, a]))
    return m.build(rtol=1e-3, atol=1e-4)


def shape_get(rng):
    """Shape followed by Gather or Slice with every combination of start, end, index and step."""
    m = M(rng, opset=ri(rng, 16, 21))
    long = chance(rng, 0.35)
    sh = rshape(rng, 1, 4, 1, 5) if not long else rshape(rng, 5, 7, 1, 6)
    sh = symbolic(rng, m, sh, 0.25 if chance(rng, 0.6) else 0)
    x = m.inp(f32, sh)
    r = len(sh)
    at = {}
    lo, hi = 0, r
    if chance(rng, 0.1 if long else 0.4):
        at["start"] = int(rng.integers(-r - 1, r))
        lo = max(0, at["start"] + r if at["start"] < 0 else at["start"])
    if chance(rng, 0.1 if long else 0.4):
        at["end"] = int(rng.integers(-r + 1, r + 2))
        hi = min(r, max(0, at["end"] + r if at["end"] < 0 else at["end"]))
    n = hi - lo
    if n <= 0:
        raise Skip
    s = m.node("Shape", [m.node("Relu", [x]) if chance(rng, 0.3) else x], **at)
    k = rng.random()
    if k < 0.4:
        i = int(rng.integers(-n, n))
        v = m.node("Gather", [s, m.const(np.array(i if chance(rng, 0.6) else [i], i64))], axis=0)
    else:
        st = int(rng.integers(-n - 1, n + 1)) if chance(rng, 0.3 if long else 0.7) else pick(rng, [0, 0, 1])
        en = int(rng.integers(-n - 1, n + 2)) if chance(rng, 0.3 if long else 0.7) else pick(rng, [2**31 - 1, 2**63 - 1, -2**31])
        stp = pick(rng, [1, 1, 1, 2, 2, 3, 3, 4]) if NEG_STEP is False else pick(rng, [1, 1, 2, -1, -2])
        if len(range(n)[slice(st, en, stp)]) == 0:
            raise Skip
        ins = [s, m.cs([st]), m.cs([en])]
        if chance(rng, 0.5) or stp != 1:
            ins.append(m.cs([0]))
        if stp != 1:
            ins.append(m.cs([stp]))
        v = m.node("Slice", ins)
    u = rng.random()
    if u < 0.3:
        m.out(v)
    elif u < 0.6:
        m.out(m.node("Cast", [v], to=pb.FLOAT))
    elif u < 0.8:
        m.out(m.node("Mul", [m.node("Cast", [v], to=pb.FLOAT), m.const(np.array(0.5, f32))]))
    else:
        m.out(m.node("Add", [v, m.const(np.array(1, i64))]))
    return m.build(rtol=1e-3)


NEG_STEP = False


def perm_reshape(rng):
    """Reshape to a shape assembled from gathered dimensions, in order and out of order."""
    m = M(rng)
    r = ri(rng, 2, 4)
    sh = rshape(rng, r, r, 1, 3)
    x = m.inp(f32, symbolic(rng, m, sh, 0.3))
    p = list(rng.permutation(r)) if PERM else list(range(r))
    parts = []
    s = m.node("Shape", [x])
    for i in p:
        i = int(i)
        g = m.node("Gather", [s if chance(rng, 0.7) else m.node("Shape", [x]), m.const(np.array(i if chance(rng, 0.7) else i - r, i64))], axis=0)
        parts.append(m.node("Unsqueeze", [g, m.cs([0])]))
    if not PERM or chance(rng, 0.3):  # one entry replaced: no longer a permutation
        parts[ri(rng, 0, r - 1)] = m.cs([-1])
    m.out(m.node("Reshape", [x, m.node("Concat", parts, axis=0)]))
    return m.build(rtol=1e-3)


PERM = False


def sdpa(rng):
    """Decomposed attention and near misses of it."""
    m = M(rng)
    B, H, S, L, D = [ri(rng, 1, 3) for _ in range(5)]
    q = m.inp(f32, [B, H, S, D], -1, 1)
    k = m.inp(f32, [B, H, L, D], -1, 1)
    v = m.inp(f32, [B, H, L, ri(rng, 1, 3)], -1, 1)
    if chance(rng, 0.3):
        q, k, v = [m.node("Tanh", [t]) for t in (q, k, v)]
    sc = np.array(pick(rng, [1 / np.sqrt(D), 0.5, 2.0]), f32)
    style = rng.random()
    extra = []
    if style < 0.2:  # scale on q (and sometimes on the scores as well)
        q = m.node("Mul", [q, m.const(sc)] if chance(rng, 0.6) else [m.const(sc), q])
        qmul = q
    pk = [0, 1, 3, 2]
    if 0.2 <= style < 0.4:  # prescaled: both multiplied, combined transposition
        c = m.const(np.sqrt(sc).astype(f32))
        q0 = m.inp(f32, [B, S, H, D], -1, 1)
        k0 = m.inp(f32, [B, L, H, D], -1, 1)
        q = m.node("Mul", [m.node("Transpose", [q0], perm=[0, 2, 1, 3]), c])
        kt = m.node("Mul", [m.node("Transpose", [k0], perm=[0, 2, 3, 1]), c])
    else:
        kt = m.node("Transpose", [k], perm=pk)
    extra.append(kt)
    s = m.node("MatMul", [q, kt])
    extra.append(s)
    if style >= 0.4 and (style < 0.92 or not UNSCALED) or (style < 0.2 and chance(rng, 0.4)):
        shp = pick(rng, [(), (), (1,), (1, 1, 1, 1)])
        c = sc.reshape(shp)
        if chance(rng, 0.1):
            c = np.broadcast_to(sc, (L,)) * np.linspace(1, 2, L).astype(f32)
        s = m.node("Mul", [s, m.const(c)] if chance(rng, 0.7) else [m.const(c), s]) if chance(rng, 0.5) else m.node("Div", [s, m.const(np.asarray(1 / c, f32))])
        extra += [s] + ([qmul] if style < 0.2 else [])
    if chance(rng, 0.4):
        msh = pick(rng, [[B, H, S, L], [1, 1, S, L], [B, 1, S, L], [S, L], [B, 1, 1, L]])
        mk = m.inp(f32, msh, -2, 2) if chance(rng, 0.6) else m.const(vals(rng, f32, msh))
        s = m.node("Add", [s, mk] if chance(rng, 0.7) else [mk, s])
        extra.append(s)
    s = m.node("Softmax", [s], axis=pick(rng, [-1, 3, -1, 3, 2]))
    extra.append(s)
    o = m.node("MatMul", [s, v])
    m.out(o)
    if chance(rng, 0.3):
        e = pick(rng, extra)
        m.out(e if chance(rng, 0.5) else m.node("Relu", [e]))
    return m.build(rtol=1e-3, atol=1e-4)


UNSCALED = False

from . import dag

GENS = [(idem, 2), (ident, 4), (cse, 4), (cse_swap, 3), (cse_multi, 1), (cse_outs, 2), (fold, 4), (fold_cast, 1), (shape_get, 4), (perm_reshape, 1), (sdpa, 4), (dag.dag, 4)]


def _pin(f):
    def b():
        m = M(np.random.default_rng(7))
        f(m)
        return m.build(rtol=1e-3, atol=1e-4)
    return b


def _p_unscaled(m):
    q, k, v = [m.inp(f32, [1, 1, 3, 4], -2, 2) for _ in range(3)]
    m.out(m.node("MatMul", [m.node("Softmax", [m.node("MatMul", [q, m.node("Transpose", [k], perm=[0, 1, 3, 2])])], axis=-1), v]))


def _p_prescaled(m):
    q, k = [m.inp(f32, [1, 3, 1, 4], -2, 2) for _ in range(2)]
    v = m.inp(f32, [1, 1, 3, 4], -2, 2)
    s = m.node("Abs", [m.inp(f32, [])])
    a = m.node("Mul", [m.node("Transpose", [q], perm=[0, 2, 1, 3]), s])
    b = m.node("Mul", [m.node("Transpose", [k], perm=[0, 2, 3, 1]), s])
    m.out(m.node("MatMul", [m.node("Softmax", [m.node("MatMul", [a, b])], axis=-1), v]))


def _p_perm(m):
    x = m.inp(f32, [2, 3])
    s = m.node("Shape", [x])
    ds = [m.node("Unsqueeze", [m.node("Gather", [s, m.const(np.array(i, i64))], axis=0), m.cs([0])]) for i in (1, 0)]
    m.out(m.node("Reshape", [x, m.node("Concat", ds, axis=0)]))


PINS = {"sdpa-unscaled": _pin(_p_unscaled), "sdpa-prescaled-runtime": _pin(_p_prescaled), "permute-reshape": _pin(_p_perm)}
