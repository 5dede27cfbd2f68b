"""C17/C09: literal values at the extremes, in every place where the generator inlines them."""
import numpy as np
from ..gen import *
from .layers import ri

FL = [0.0, -0.0, np.inf, -np.inf, np.nan, 1e-45, 3.4e38, -3.4e38, 1e-38, 0.1, 1 / 3, 1e10, 123456789.0, 16777217.0, -1.5, 1e-7, 2.5e-5, 1.0, 100.0]
DL = FL + [1e300, 5e-324, 1.7976931348623157e308, 0.1 + 0.2]
IL = {i64: [0, 1, -1, 2**63 - 1, -2**63, 2**53 + 1, 2**31, -2**31 - 1], i32: [0, 1, -1, 2**31 - 1, -2**31], i8: [-128, 127, 0], u8: [0, 255]}


def lit(rng, dt, shape):
    if dt == b1:
        return np.asarray(rng.integers(0, 2, shape), bool)
    v = np.array(FL if dt in (f32, f16) else DL if dt == f64 else IL[dt], object)
    with np.errstate(all="ignore"):
        return np.asarray(v[rng.integers(0, len(v), shape)], dtype=np.dtype(dt)) if shape != () else np.asarray(v[int(rng.integers(0, len(v)))], dt)


def scalar_op(rng):
    """Scalar and one-element constants as operands of element-wise operators."""
    m = M(rng)
    dt = pick(rng, [f32, f32, f64, i64, i32])
    x = m.inp(dt, symbolic(rng, m, rshape(rng, 1, 3, 1, 3)), -3, 3)
    sh = pick(rng, [(), (1,), (1, 1)])
    if len(sh) == 2:
        x = m.inp(dt, [2, 3], -3, 3)
    c = m.const(lit(rng, dt, sh))
    op = pick(rng, ["Add", "Sub", "Mul", "Max", "Min", "Greater", "Less", "Equal"] if dt in (f32, f64) else ["Max", "Min", "Greater", "Less", "Equal"])
    if op in ("Max", "Min") and dt in (f32, f64):
        op = "Greater"
    m.out(m.node(op, [x, c] if chance(rng, 0.7) else [c, x]))
    return m.build(rtol=1e-6, atol=0)


def const_out(rng):
    """Constants that are passed on: through Identity, Where, Concat, Gather, Expand."""
    m = M(rng)
    dt = pick(rng, [f32, f32, f64, i64, i32, b1])
    d = rshape(rng, 1, 3, 1, 4)
    c = m.const(lit(rng, dt, tuple(d)))
    k = pick(rng, ["where", "concat", "gather", "reshape", "transpose"])
    if k == "where":
        y = m.node("Where", [m.inp(b1, d), c, m.const(lit(rng, dt, tuple(d)))])
    elif k == "concat":
        y = m.node("Concat", [c, m.inp(dt, d, -2, 2)], axis=ri(rng, 0, len(d) - 1))
    elif k == "gather":
        n = d[0]
        y = m.node("Gather", [c, m.inp(i64, [ri(rng, 1, 4)], fn=lambda r, s, q: r.integers(0, n, s).astype(i64))], axis=0)
    elif k == "reshape":
        y = m.node("Reshape", [c, m.cs([-1])])
        m.out(m.node("Identity", [m.inp(f32, [2])]))
    else:
        y = m.node("Transpose", [c])
        m.out(m.node("Identity", [m.inp(f32, [2])]))
    m.out(y)
    return m.build(rtol=0, atol=0)


def attrs(rng):
    """Float attributes and bounds rendered as literals."""
    m = M(rng)
    x = m.inp(f32, symbolic(rng, m, rshape(rng, 1, 3, 1, 3)), -3, 3)
    v = lambda: float(pick(rng, [0.0, 1e-7, 1e10, 0.1, 1 / 3, 100.0, 1e-30, 1.0, 2.0, 123456.79, 1e38]))
    k = pick(rng, ["leaky", "elu", "clip", "hard", "celu", "thres", "fill", "pad", "range", "onehot"])
    if k == "leaky":
        y = m.node("LeakyRelu", [x], alpha=v())
    elif k == "elu":
        y = m.node("Elu", [x], alpha=v())
    elif k == "celu":
        y = m.node("Celu", [x], alpha=pick(rng, [0.5, 1e-3, 100.0, 1 / 3]))
    elif k == "thres":
        y = m.node("ThresholdedRelu", [x], alpha=v())
    elif k == "hard":
        y = m.node("HardSigmoid", [x], alpha=v(), beta=0.25)
    elif k == "clip":
        m.opset = max(m.opset, 13)
        lo, hi = sorted(float(np.float32(pick(rng, [-np.inf, np.inf, -3.4028234663852886e38, 3.4028234663852886e38, 0.0, -1.0, 1e-7, 6.0, 0.1]))) for _ in range(2))
        y = m.node("Clip", [x, m.const(np.asarray(lo, f32)), m.const(np.asarray(hi, f32))])
    elif k == "fill":
        dt = pick(rng, [f32, f32, i64, i32, f64, b1])
        from .. import pb
        y = m.node("ConstantOfShape", [m.node("Shape", [x])], value=pb.Tensor("", lit(rng, dt, (1,))))
    elif k == "pad":
        m.opset = max(m.opset, 13)
        x = m.inp(f32, [2, 2], -3, 3)
        y = m.node("Pad", [x, m.cs([0, 1, 1, 0]), m.const(lit(rng, f32, ()))], mode="constant")
    elif k == "range":
        a = int(pick(rng, [-2**31, 2**40, -5, 0, 2**62]))
        y = m.node("Range", [m.const(np.asarray(a, i64)), m.const(np.asarray(a + 5, i64)), m.const(np.asarray(2, i64))])
        m.out(m.node("Identity", [x]))
    else:
        y = m.node("OneHot", [m.inp(i64, [3], fn=lambda r, s, q: r.integers(0, 4, s).astype(i64)), m.const(np.asarray(4, i64)), m.const(np.array([pick(rng, [0.0, -1.0, -100.0]), pick(rng, [1.0, 1e9, 7.0])], f32))])
    m.out(y)
    return m.build(rtol=1e-6, atol=5e-8)


GENS = [(scalar_op, 4), (const_out, 4), (attrs, 4)]
PINS = {}
