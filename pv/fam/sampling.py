"""C22: operators that draw random numbers. Each model measures its own samples and yields only what the distribution decides."""
import numpy as np
from ..gen import *
from .. import pb
from ..ref import op
from .layers import ri

_rng = np.random.default_rng(20260101)
NP = {pb.FLOAT: np.float32, pb.DOUBLE: np.float64, pb.FLOAT16: np.float16}


def _draw(c, shape, dt):
    if "Normal" in c.n.op:
        return (c.get("mean", 0.0) + c.get("scale", 1.0) * _rng.standard_normal(shape)).astype(dt)
    lo, hi = c.get("low", 0.0), c.get("high", 1.0)
    return (lo + (hi - lo) * _rng.random(shape)).astype(dt)


@op("RandomNormal", "RandomUniform")
def _random(c):
    return _draw(c, tuple(c.get("shape")), NP[c.get("dtype", pb.FLOAT)])


@op("RandomNormalLike", "RandomUniformLike")
def _like(c, x):
    return _draw(c, x.shape, NP[c.get("dtype")] if c.get("dtype") is not None else x.dtype)


@op("Bernoulli")
def _bernoulli(c, x):
    d = c.get("dtype")
    return (_rng.random(x.shape) < x).astype(pb.PB2NP[d] if d is not None else x.dtype)


def between(m, v, lo, hi):
    """A boolean output: the number v lies within the bounds."""
    m.out(m.node("And", [m.node("GreaterOrEqual", [v, m.const(np.array(lo, f32))]), m.node("LessOrEqual", [v, m.const(np.array(hi, f32))])]))


def shape_of(rng, n=4000):
    """A shape of at least n elements."""
    r = ri(rng, 1, 4)
    s = [int(rng.integers(1, 9)) for _ in range(r - 1)]
    s.insert(ri(rng, 0, r - 1), -(-n // int(np.prod(s))))
    return s


def measure(m, y, n, mean, var, kurt, lo, hi, part):
    """n samples: their mean and variance (6 standard errors), the share of them below the mean + part and their bounds."""
    mu = m.node("ReduceMean", [y], keepdims=0)
    between(m, mu, mean - 6 * (var / n) ** 0.5, mean + 6 * (var / n) ** 0.5)
    d = m.node("Sub", [y, m.const(np.array(mean, f32))])
    v = m.node("ReduceMean", [m.node("Mul", [d, d])], keepdims=0)
    e = 6 * var * ((kurt - 1) / n) ** 0.5 + 1e-6
    between(m, v, var - e, var + e)
    q = m.node("ReduceMean", [m.node("Cast", [m.node("Less", [y, m.const(np.array(mean + part[0], f32))])], to=pb.FLOAT)], keepdims=0)
    e = 6 * (part[1] * (1 - part[1]) / n) ** 0.5
    between(m, q, part[1] - e, part[1] + e)
    between(m, m.node("ReduceMax", [y], keepdims=0), *hi)
    between(m, m.node("ReduceMin", [y], keepdims=0), *lo)


def as_f32(m, y, dt):
    return y if dt == f32 else m.node("Cast", [y], to=pb.FLOAT)


def dist(rng, op):
    """Attributes of a distribution and its arguments for measure."""
    at = {}
    if "Normal" in op:
        mu, s = 0.0, 1.0
        if chance(rng, 0.75):
            mu = at["mean"] = float(np.float32(rng.uniform(-8, 8)))
        if chance(rng, 0.75):
            s = at["scale"] = float(np.float32(rng.uniform(0.2, 5)))
        return at, (mu, s * s, 3.0, (mu - 9 * s, mu - 2 * s), (mu + 2 * s, mu + 9 * s), (s, 0.8413447))
    a, b = 0.0, 1.0
    if chance(rng, 0.75):
        b = at["high"] = float(np.float32(rng.uniform(1, 9)))
    if chance(rng, 0.75):
        a = at["low"] = float(np.float32(rng.uniform(-9, 0.5)))
    w = b - a
    return at, ((a + b) / 2, w * w / 12, 1.8, (a - 1e-5, a + w / 50), (b - w / 50, b + 1e-5), (w / 4, 0.75))


def random(rng):
    """RandomNormal and RandomUniform."""
    m = M(rng)
    op = pick(rng, ["RandomNormal", "RandomUniform"])
    at, me = dist(rng, op)
    sh = shape_of(rng)
    dt = pick(rng, [f32, f32, f64])
    if dt == f64 or chance(rng, 0.3):
        at["dtype"] = pb.NP2PB[np.dtype(dt)]
    # a float32 sample as the receiver of a method does not type-check (known finding random-inference)
    draw = (lambda: m.node(op, [], shape=sh, **at)) if dt == f64 else lambda: m.node("Add", [m.inp(f32, sh, fn=lambda *_: np.zeros(sh, f32)), m.node(op, [], shape=sh, **at)])
    finish(rng, m, draw(), dt, sh, me, draw)
    return m.build(rtol=0, atol=0)


def finish(rng, m, y, dt, sh, me, again):
    measure(m, as_f32(m, y, dt), int(np.prod(sh)), *me)
    m.out(m.node("Shape", [y]))
    if chance(rng, 0.5):  # of the declared type
        m.out(m.node("Mul", [y, m.const(np.zeros(1, dt))]))
    if chance(rng, 0.5):  # another node draws other numbers
        z = again()
        m.out(m.node("Greater", [m.node("ReduceMax", [as_f32(m, m.node("Abs", [m.node("Sub", [y, z])]), dt)], keepdims=0), m.const(np.array(1e-3, f32))]))


def like(rng):
    """RandomNormalLike and RandomUniformLike."""
    m = M(rng)
    op = pick(rng, ["RandomNormalLike", "RandomUniformLike"])
    at, me = dist(rng, op)
    sh = shape_of(rng)
    src = pick(rng, [f32, f32, f64, i64])
    dt = src
    if src == i64 or chance(rng, 0.5):
        dt = pick(rng, [f32, f64])
        at["dtype"] = pb.NP2PB[np.dtype(dt)]
    x = m.inp(src, sh, -2, 2)
    if chance(rng, 0.3):
        x = m.node("Neg", [x])
    y = m.node(op, [x], **at)
    finish(rng, m, y, dt, sh, me, lambda: m.node(op, [x], **at))
    if chance(rng, 0.4):
        m.out(x)
    return m.build(rtol=0, atol=0)


def bernoulli(rng):
    """Bernoulli: every row has its own probability, certain ones included."""
    m = M(rng, opset=pick(rng, [15, 18, 21]))
    n = 2000
    p = [0.0, 1.0] + [float(v) for v in rng.uniform(0.05, 0.95, ri(rng, 1, 3))]
    rng.shuffle(p)
    src = pick(rng, [f32, f32, f64])
    to = pick(rng, [None, f32, f64, np.float16, i32, i64, np.int8, np.int16, np.uint8, np.uint16, b1])
    pv = np.repeat(np.array(p, src)[:, None], n, 1)
    x = m.inp(src, [len(p), n], fn=lambda *_: pv)
    y = m.node("Bernoulli", [x], **({} if to is None else {"dtype": pb.NP2PB[np.dtype(to)]}))
    dt = to or src
    f = as_f32(m, y, dt)
    r = m.node("ReduceMean", [f] + ([m.cs([1])] if m.opset >= 18 else []), keepdims=0, **({} if m.opset >= 18 else {"axes": [1]}))
    e = np.array([0 if q in (0, 1) else 6 * (q * (1 - q) / n) ** 0.5 for q in p])
    m.out(m.node("Less", [m.node("Abs", [m.node("Sub", [r, m.const(np.array(p, f32))])]), m.const((e + 1e-4).astype(f32))]))
    m.out(m.node("ReduceMin", [m.node("Cast", [m.node("Or", [m.node("Equal", [f, m.const(np.array(0, f32))]), m.node("Equal", [f, m.const(np.array(1, f32))])])], to=pb.FLOAT)], keepdims=0))
    m.out(m.node("Shape", [y]))
    if dt != b1:
        m.out(m.node("Mul", [y, m.const(np.zeros(1, dt))]))
    if chance(rng, 0.5):
        m.out(m.node("Not", [m.node("Equal", [m.node("ReduceSum", [m.node("Abs", [m.node("Sub", [f, as_f32(m, m.node("Bernoulli", [x], **({} if to is None else {"dtype": pb.NP2PB[np.dtype(to)]})), dt)])])], keepdims=0), m.const(np.array(0, f32))])]))
    return m.build(rtol=0, atol=0)


GENS = [(random, 3), (like, 3), (bernoulli, 2)]


def p_inference():
    m = M(np.random.default_rng(1))
    m.out(m.node("Less", [m.node("ReduceMax", [m.node("RandomUniform", [], shape=[2, 3])], keepdims=0), m.const(np.array(2, f32))]))
    return m.build()


PINS = {"random-inference": p_inference}
