"""C03: reductions, normalisations and linear algebra."""
import numpy as np
from ..gen import *
from .. import pb

FL = [f32, f32, f32, f64]


def ri(rng, a, b):
    return int(rng.integers(a, b + 1))


def nax(rng, a, r):
    return int(a) - r if chance(rng, 0.4) else int(a)


RED = ["ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare"]


def reduce_(rng):
    m = M(rng)
    op = pick(rng, RED)
    dt = pick(rng, FL)
    if chance(rng, 0.25):
        dt = pick(rng, [i64, i32])
    elif op in ("ReduceMax", "ReduceMin") and chance(rng, 0.25):
        dt = b1
        m.opset = max(m.opset, 20)
    isint = np.dtype(dt).kind == "i"
    # integer results of these are truncated: keep them positive
    lo = 0.3 if op == "ReduceLogSum" else -3
    if isint and op in ("ReduceMean", "ReduceLogSum", "ReduceLogSumExp"):
        lo = 1
    d = rshape(rng, 1, 4)
    x = m.inp(dt, symbolic(rng, m, d, 0.3), lo, 3)
    r = len(d)
    at = {}
    axes = None
    if chance(rng, 0.8):
        k = int(rng.integers(1, r + 1)) if not (isint and op == "ReduceMean") else 1  # known: integer means over several axes
        axes = [nax(rng, a, r) for a in rng.permutation(r)[:k]]
    if chance(rng, 0.75):
        at["keepdims"] = int(rng.integers(0, 2))
    ins = [x]
    if axes is not None:
        if m.opset >= 18 or (op == "ReduceSum" and m.opset >= 13):
            ins.append(m.cs(axes))
        else:
            at["axes"] = axes
    elif m.opset >= 18 or (op == "ReduceSum" and m.opset >= 13):
        if chance(rng, 0.3):
            ins.append(m.cs([]))
        if chance(rng, 0.5):
            at["noop_with_empty_axes"] = int(op in RED[:5] and chance(rng, 0.6))
    m.out(m.node(op, ins, **at))
    return m.build(rtol=1e-3, atol=1e-4)


def arg(rng):
    m = M(rng)
    op = pick(rng, ["ArgMax", "ArgMin"])
    d = rshape(rng, 1, 4)
    dt = pick(rng, [f32, f32, f64, i64])
    m_ = int(np.prod(d))

    def f(r, s, k):  # distinct values: no ties
        n = int(np.prod(s))
        return (r.permutation(n) - n // 2).reshape(s)
    x = m.inp(dt, symbolic(rng, m, d, 0.3), fn=f)
    at = {}
    if chance(rng, 0.85):
        at["axis"] = nax(rng, rng.integers(0, len(d)), len(d))
    if chance(rng, 0.75):
        at["keepdims"] = int(rng.integers(0, 2))
    if at.get("keepdims") == 0 and len(d) == 1 and not ARG0:
        raise Skip
    m.out(m.node(op, [x], **at))
    return m.build()


ARG0 = True


def cumsum(rng):
    m = M(rng)
    d = rshape(rng, 1, 4)
    x = m.inp(pick(rng, [f32, f32, f64, i64, i32]), symbolic(rng, m, d, 0.3))
    a = np.asarray(nax(rng, rng.integers(0, len(d)), len(d)), pick(rng, [i64, i32]))
    at = {}
    if chance(rng, 0.5):
        at["exclusive"] = int(rng.integers(0, 2))
    if chance(rng, 0.5):
        at["reverse"] = int(rng.integers(0, 2))
    if chance(rng, 0.3):  # an axis only known at run time (negative: known)
        v = int(a) % len(d)
        if v and chance(rng, 0.4):
            w = m.node("Gather", [m.node("Shape", [m.inp(f32, [v, 2])]), m.const(np.array(0, i64))], axis=0)
        else:
            w = m.inp(a.dtype.type, [], fn=lambda r, s, k: np.array(v))
    else:
        w = m.const(a)
    m.out(m.node("CumSum", [x, w], **at))
    return m.build()


def topk(rng):
    m = M(rng)
    d = rshape(rng, 1, 4, 1, 5)
    a = int(rng.integers(0, len(d)))

    def f(r, s, k):
        n = int(np.prod(s))
        return (r.permutation(n) - n // 2).reshape(s)
    x = m.inp(pick(rng, [f32, f32, f64, i64]), d, fn=f)
    k = int(rng.integers(1, d[a] + 1))
    at = {}
    if chance(rng, 0.8) or a != len(d) - 1:
        at["axis"] = nax(rng, a, len(d))
    if chance(rng, 0.6):
        at["largest"] = 1
    if chance(rng, 0.4):
        at["sorted"] = 1
    o = m.node("TopK", [x, m.cs([k])], 2, **at)
    m.out(*(o if chance(rng, 0.7) else [pick(rng, o)]))
    return m.build()


def softmax(rng):
    m = M(rng)
    op = pick(rng, ["Softmax", "LogSoftmax", "Hardmax", "Softmax"])
    d = rshape(rng, 1, 4)
    x = m.inp(pick(rng, FL + [f16]) if op != "Hardmax" else f32, symbolic(rng, m, d, 0.3), -4, 4)
    at = {"axis": nax(rng, rng.integers(0, len(d)), len(d))} if chance(rng, 0.8) else {}
    m.out(m.node(op, [x], **at))
    return m.build()


def softmax_old(rng):
    """Opset 11/12: flattens to 2-D at axis (default 1)."""
    m = M(rng, opset=int(rng.choice([11, 12])))
    op = pick(rng, ["Softmax", "LogSoftmax"])
    d = rshape(rng, 2, 3)
    x = m.inp(f32, d, -4, 4)
    at = {"axis": len(d) - 1} if len(d) != 2 or chance(rng, 0.5) else {}
    m.out(m.node(op, [x], **at))
    return m.build()


def matmul(rng):
    m = M(rng)
    dt = pick(rng, FL)
    K = int(rng.integers(1, 5))
    ra, rb = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    batch = rshape(rng, 0, 2)

    def sh(r, first):
        if r == 1:
            return [K]
        n = int(rng.integers(1, 5))
        b = batch[max(0, len(batch) - (r - 2)):]
        b = [1] * 0 + [1 if chance(rng, 0.25) else v for v in b]
        return b + ([n, K] if first else [K, n])
    sa, sb = sh(ra, True), sh(rb, False)
    cb = chance(rng, 0.4)
    a = m.inp(dt, sa)
    if chance(rng, 0.3) and len(sa) > 1:
        m.ins[-1] = None
        m.ins.pop()
        sy = list(sa)
        sy[0] = m.name("n") if sa[0] != 1 and (len(sa) == 2) else sa[0]
        a = m.inp(dt, sy)
    b = m.const(vals(rng, dt, tuple(sb))) if cb else m.inp(dt, sb)
    if chance(rng, 0.12) and not cb:
        a, b = m.const(vals(rng, dt, tuple(sa))), b
        m.ins = [i for i in m.ins if i[0] == b]
    y = m.node("MatMul", [a, b])
    if chance(rng, 0.35):
        # a bias that MatMul+Add fusion may look at
        yr = np.matmul(np.zeros(sa), np.zeros(sb)).ndim
        n = sb[-1] if len(sb) > 1 else 1
        bs = [n] if len(sb) > 1 else [1]
        r = rng.random()
        bias = m.const(vals(rng, dt, tuple(bs))) if r < 0.7 else m.inp(dt, bs)
        y2 = m.node("Add", [y, bias] if chance(rng, 0.6) else [bias, y])
        m.out(y2)
        if FUSE_SHARED and chance(rng, 0.25):
            m.out(m.node("Relu", [y]))
    else:
        m.out(y)
    return m.build(rtol=1e-3, atol=1e-4)


FUSE_SHARED = True


def matmul_bias_near(rng):
    """MatMul followed by Add whose other operand does not have the plain bias form."""
    m = M(rng)
    K, N = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    B = int(rng.integers(1, 4))
    a = m.inp(f32, pick(rng, [[B, K], [2, B, K]]))
    w = m.const(vals(rng, f32, (K, N)))
    y = m.node("MatMul", [a, w])
    bs = pick(rng, [(1, N), (B, N), (B, 1), (), (1,), (N,)] + [(1, 1, N)] * (len(m.ins[0][2]) == 3))
    bias = m.const(vals(rng, f32, bs))
    z = m.node("Add", [y, bias] if chance(rng, 0.5) else [bias, y])
    m.out(z)
    if chance(rng, 0.3):
        m.out(y)
    if chance(rng, 0.2):
        m.out(m.node("Mul", [y, bias]))
    return m.build(rtol=1e-3, atol=1e-4)


def shared_weight(rng):
    """One weight used by several products."""
    m = M(rng)
    K = int(rng.integers(2, 5))
    x = m.inp(f32, [2, K])
    w = m.const(vals(rng, f32, (K, K)))
    b = m.const(vals(rng, f32, (K,)))
    y = m.node("MatMul", [x, w])
    y = m.node("Add", [y, b])
    z = m.node("MatMul", [y, w])
    if chance(rng, 0.5):
        z = m.node("Add", [z, b])
    if chance(rng, 0.5):
        z = m.node("Mul", [z, w]) if K == 2 else m.node("Gemm", [z, w, b], transB=int(rng.integers(0, 2)))
    m.out(z)
    return m.build(rtol=1e-3, atol=1e-4)


def gemm(rng):
    m = M(rng)
    dt = pick(rng, FL)
    Mm, K, N = (int(v) for v in rng.integers(1, 5, 3))
    at = {}
    if chance(rng, 0.5):
        at["alpha"] = float(f32(rng.uniform(0.3, 2)))
    if chance(rng, 0.5):
        at["beta"] = float(f32(rng.uniform(0.3, 2)))
    ta = tb = 0
    if chance(rng, 0.5):
        ta = at["transA"] = int(rng.integers(0, 2))
    if chance(rng, 0.6):
        tb = at["transB"] = int(rng.integers(0, 2))
    if chance(rng, 0.45):  # the form exporters write for a dense layer
        at["alpha"] = at["beta"] = 1.0
        tb = at["transB"] = 1
    a = m.inp(dt, [K, Mm] if ta else [Mm, K])
    bs = (N, K) if tb else (K, N)
    b = m.const(vals(rng, dt, bs)) if chance(rng, 0.65) else m.inp(dt, list(bs))
    ins = [a, b]
    r = rng.random()
    if r < 0.75:
        cs = pick(rng, [(N,), (N,), (N,), (1, N), (Mm, N), (Mm, 1), (1,), ()])
        if not cs and chance(rng, 0.3) and dt == f32:
            ins.append(m.node("Cast", [m.node("Gather", [m.node("Shape", [m.inp(f32, [3, 2])]), m.const(np.array(int(rng.integers(0, 2)), i64))], axis=0)], to=1))
        else:
            ins.append(m.const(vals(rng, dt, cs)) if chance(rng, 0.7) else m.inp(dt, list(cs)))
    m.out(m.node("Gemm", ins, **at))
    return m.build(rtol=1e-3, atol=1e-4)


def matmulint(rng):
    m = M(rng)
    da, db = pick(rng, [u8, i8]), pick(rng, [u8, i8])
    K = int(rng.integers(1, 5))
    batch = rshape(rng, 0, 2, 1, 3)
    sa = batch[int(rng.integers(0, len(batch) + 1)):] + [int(rng.integers(1, 4)), K]
    sb = ([1 if chance(rng, 0.2) else d for d in batch] if chance(rng, 0.4) else []) + [K, int(rng.integers(1, 4))]
    r = rng.random()
    if r < 0.15:
        sa = [K]
    if 0.12 < r < 0.27:
        sb = [K]
    a, b = m.inp(da, sa, -20, 20), (m.inp(db, sb, -20, 20) if chance(rng, 0.6) else m.const(vals(rng, db, tuple(sb), -20, 20)))
    zp = lambda dt, one=True: m.const(np.asarray(vals(rng, dt, (1,) if one and chance(rng, 0.3) else (), 0, 5)))
    ins = [a, b]

    def point(dt, s, right):
        """Per tensor, per row of A or column of B (a vector with matrices, else all dimensions)."""
        r = rng.random()
        if len(s) < 2 or r < 0.5:
            return zp(dt)
        d = (s[-1 if right else -2],) if r < 0.75 and len(s) == 2 else tuple(s[:-2]) + ((1, s[-1]) if right else (s[-2], 1))
        return m.const(vals(rng, dt, d, 0, 5)) if chance(rng, 0.6) else m.inp(dt, list(d), 0, 5)

    if chance(rng, 0.6):
        ins.append(point(da, sa, False) if chance(rng, 0.7) else "")
        if chance(rng, 0.6) or ins[-1] == "":
            ins.append(point(db, sb, True))
    m.out(m.node("MatMulInteger", ins))
    return m.build()


def attention(rng):
    m = M(rng, opset=23)
    B, H, S, T, D, Dv = 2, int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    at = {}
    if chance(rng, 0.4):
        at["scale"] = float(f32(rng.uniform(0.2, 1.5)))
    causal = chance(rng, 0.3)
    if causal:
        at["is_causal"] = 1
        T = S
    if not causal and chance(rng, 0.2):
        at["softcap"] = float(f32(rng.uniform(0.5, 3)))
    if chance(rng, 0.7):
        ins = [m.inp(f32, [B, H, S, D]), m.inp(f32, [B, H, T, D]), m.inp(f32, [B, H, T, Dv])]
    else:
        at["q_num_heads"] = at["kv_num_heads"] = H
        ins = [m.inp(f32, [B, S, H * D]), m.inp(f32, [B, T, H * D]), m.inp(f32, [B, T, H * Dv])]
    if not causal and "softcap" not in at and chance(rng, 0.4):  # the order of softcap and mask differs between versions
        ms = pick(rng, [[S, T], [B, H, S, T], [B, 1, S, T]])
        if chance(rng, 0.5):
            ins.append(m.inp(f32, ms))
        else:
            ins.append(m.inp(b1, ms, fn=lambda r, s, k: np.where(np.arange(s[-1]) == 0, True, r.random(s) < 0.6)))
    m.out(m.node("Attention", ins, **at))
    return m.build(rtol=1e-3, atol=1e-4)


def attention_ext(rng):
    """Attention with caches, masks of every rank and type, intermediate outputs."""
    m = M(rng, opset=23)
    B, H, S, T, D, Dv = ri(rng, 1, 3), ri(rng, 1, 4), ri(rng, 1, 4), ri(rng, 1, 5), ri(rng, 1, 4), ri(rng, 1, 4)
    at = {}
    if chance(rng, 0.4):
        at["scale"] = float(f32(rng.uniform(0.2, 1.5)))
    past = ri(rng, 1, 3) if chance(rng, 0.5) else 0
    qk = chance(rng, 0.5) and past > 0  # refused without a cache
    causal = chance(rng, 0.25)
    if causal:
        at["is_causal"] = 1
        if not qk:  # burn aligns the triangle itself
            S = T + past
    if chance(rng, 0.7):
        ins = [m.inp(f32, [B, H, S, D]), m.inp(f32, [B, H, T, D]), m.inp(f32, [B, H, T, Dv])]
    else:
        at["q_num_heads"], at["kv_num_heads"] = H, H
        ins = [m.inp(f32, [B, S, H * D]), m.inp(f32, [B, T, H * D]), m.inp(f32, [B, T, H * Dv])]
    L = T + past
    cap = chance(rng, 0.25)
    if not causal and not cap and chance(rng, 0.6):
        ms = pick(rng, [[S, L], [B, H, S, L], [B, 1, S, L], [1, H, S, L], [1, S, L]])
        k = pick(rng, ["f", "f", "b", "b", "i"])
        if k == "f":
            ins.append(m.inp(f32, ms))
        elif k == "i":
            ins.append(m.inp(pick(rng, [i64, i32]), ms, -3, 3))
        else:
            ins.append(m.inp(b1, ms, fn=lambda r, s, k: np.where(np.arange(s[-1]) == 0, True, r.random(s) < 0.6)))
    elif cap and not causal:
        at["softcap"] = float(f32(rng.uniform(0.5, 3)))
    if past:
        if len(ins) == 3:
            ins.append("")
        ins += [m.inp(f32, [B, H, past, D]), m.inp(f32, [B, H, past, Dv])]
    outs = [m.name("y")]
    if past or qk:
        outs += [m.name("pk"), m.name("pv")] if past else ["", ""]
    if qk:
        outs.append(m.name("qk"))
        mode = pick(rng, [0, 1, 2, 3])
        if mode == 1 and causal:
            mode = 3  # holds infinities
        if chance(rng, 0.8) or mode:
            at["qk_matmul_output_mode"] = mode
    m.node("Attention", ins, outs=outs, **at)
    for o in outs:
        if o and (o == outs[0] or chance(rng, 0.8)):
            m.out(o)
    return m.build(rtol=1e-3, atol=1e-4)


def mlp(rng):
    """Several dense layers, with and without activations between."""
    m = M(rng)
    K = int(rng.integers(1, 5))
    x = m.inp(f32, [m.name("n") if chance(rng, 0.4) else 2, K])
    for _ in range(int(rng.integers(1, 4))):
        N = int(rng.integers(1, 5))
        if chance(rng, 0.5):
            tb = int(rng.integers(0, 2))
            x = m.node("Gemm", [x, m.const(vals(rng, f32, (N, K) if tb else (K, N))), m.const(vals(rng, f32, (N,)))], transB=tb)
        else:
            x = m.node("MatMul", [x, m.const(vals(rng, f32, (K, N)))])
            if chance(rng, 0.7):
                b = m.const(vals(rng, f32, (N,)))
                x = m.node("Add", [x, b] if chance(rng, 0.5) else [b, x])
        if chance(rng, 0.6):
            x = m.node(pick(rng, ["Relu", "Tanh", "Sigmoid"]), [x])
        K = N
    m.out(x)
    return m.build(rtol=1e-3, atol=1e-3)


GENS = [(reduce_, 8), (arg, 3), (cumsum, 2), (topk, 3), (softmax, 2), (softmax_old, 1), (matmul, 5), (matmul_bias_near, 2), (shared_weight, 1), (gemm, 5), (matmulint, 2), (attention, 3), (attention_ext, 3), (mlp, 3)]


def _r(k=0):
    return np.random.default_rng(k)


def p_hardmax16():
    m = M(_r(), opset=17)
    m.out(m.node("Hardmax", [m.inp(f16, [2, 3])], axis=1))
    return m.build()


def p_causal_mask():
    m = M(_r(), opset=23)
    q = [m.inp(f32, [1, 2, 3, 2]) for _ in range(3)]
    m.out(m.node("Attention", q + [m.inp(f32, [3, 3])], is_causal=1))
    return m.build()


def p_mask3():
    m = M(_r(), opset=23)
    q = [m.inp(f32, [2, 2, 3, 2]) for _ in range(3)]
    m.out(m.node("Attention", q + [m.inp(f32, [2, 3, 3])]))
    return m.build()


def p_mean_int():
    m = M(_r(), opset=17)
    m.out(m.node("ReduceMean", [m.inp(i64, [3, 2], fn=lambda r, s, k: np.array([[1, 2], [1, 2], [3, 3]], i64))], axes=[0, 1], keepdims=0))
    return m.build()


def p_cumsum_neg():
    m = M(_r(), opset=17)
    m.out(m.node("CumSum", [m.inp(f32, [2, 3]), m.inp(i64, [], fn=lambda r, s, k: np.array(-1))]))
    return m.build()


def p_gqa():
    m = M(_r(), opset=23)
    ins = [m.inp(f32, [1, 3, 8]), m.inp(f32, [1, 3, 4]), m.inp(f32, [1, 3, 4]), "", m.inp(f32, [1, 2, 1, 2]), m.inp(f32, [1, 2, 1, 2])]
    m.out(*m.node("Attention", ins, nout=4, q_num_heads=4, kv_num_heads=2))
    return m.build()


PINS = {"cumsum-neg-runtime": p_cumsum_neg, "reducemean-int": p_mean_int, "attention-mask3": p_mask3, "attention-gqa": p_gqa, "hardmax-f16": p_hardmax16, "attention-causal-mask": p_causal_mask}
