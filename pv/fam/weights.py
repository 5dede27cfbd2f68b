"""C09: weights and constants of all element types, shapes and encodings."""
import numpy as np
from ..gen import *
from .. import pb
from .control import Sub, vi
from .layers import ri

DTS = [f32, f32, f32, i64, i64, f64, i32, b1, f16, u8, i8, i16, u16, u32, u64]


def bits(rng, dt, shape):
    """Random bit patterns; for floats also special values and NaN payloads."""
    dt = np.dtype(dt)
    if dt.kind == "b":
        return np.asarray(rng.integers(0, 2, shape), bool)
    n = int(np.prod(shape))
    a = np.frombuffer(rng.bytes(n * dt.itemsize), dt).copy().reshape(shape)
    if dt.kind == "f":
        r = rng.random()
        if r < 0.6:
            a = np.asarray(rng.uniform(-4, 4, shape), dt)
        if a.size and chance(rng, 0.4):
            f = a.reshape(-1)
            for _ in range(ri(rng, 1, 3)):
                f[int(rng.integers(0, f.size))] = pick(rng, [np.inf, -np.inf, np.nan, -0.0, 0.0, np.finfo(dt).tiny, np.finfo(dt).max, np.finfo(dt).smallest_subnormal, 1 / 3])
            a = f.reshape(shape)
    elif a.size and chance(rng, 0.4):
        f = a.reshape(-1)
        for _ in range(ri(rng, 1, 3)):
            f[int(rng.integers(0, f.size))] = pick(rng, [np.iinfo(dt).min, np.iinfo(dt).max, 0, 1, np.iinfo(dt).max - 1])
        a = f.reshape(shape)
    return a


def typed(a, packed=True, split=False):
    """The typed field of a tensor: packed, one record per element, or in several packed records."""
    d = pb.NP2PB[a.dtype]
    f = a.reshape(-1)
    if not f.size:
        return b""
    parts = [f] if packed and not split else [f[i:i + 1] for i in range(f.size)] if not packed else [f[:f.size // 2], f[f.size // 2:]]
    o = b""
    for p in parts:
        if not p.size:
            continue
        if d == pb.FLOAT:
            o += pb.fbytes(4, p.tobytes()) if packed else pb.tag(4, 5) + p.tobytes()
        elif d == pb.DOUBLE:
            o += pb.fbytes(10, p.tobytes()) if packed else pb.tag(10, 1) + p.tobytes()
        else:
            k = 7 if d == pb.INT64 else 11 if d in (pb.UINT32, pb.UINT64) else 5
            v = [int(x) for x in (p.view(np.uint16) if d == pb.FLOAT16 else p)]
            o += pb.packed_ints(k, v) if packed else b"".join(pb.fint(k, x) for x in v)
    return o


class Ext:
    """External files filled with data at odd offsets between garbage."""

    def __init__(self, rng):
        self.rng, self.files = rng, {}

    def put(self, raw):
        rng = self.rng
        n = pick(rng, ["w.bin", "w.bin", "data/weights", "x.data", "weights é.bin"])
        b = self.files.setdefault(n, bytearray())
        b += rng.bytes(int(rng.integers(0, 70)))
        if chance(rng, 0.3):
            b += rng.bytes(-len(b) % 64)
        if chance(rng, 0.02) and len(b) < 100_000:  # past what 16 bits hold
            b += rng.bytes(int(rng.integers(66_000, 200_000)))
        off = len(b)
        b += raw
        loc = pick(rng, ["", "", "./"]) + n
        kv = [("location", loc)]
        if off or chance(rng, 0.5):
            kv.append(("offset", str(off)))
        if chance(rng, 0.6):
            kv.append(("length", str(len(raw))))
        if chance(rng, 0.2):
            kv.append(("checksum", "0123456789abcdef"))
        if chance(rng, 0.4):
            kv = [kv[int(i)] for i in rng.permutation(len(kv))]
        return kv

    def done(self):
        out = []
        for n, b in self.files.items():
            if chance(self.rng, 0.5):
                b += self.rng.bytes(int(self.rng.integers(1, 40)))
            out.append((n, bytes(b)))
        return out


def bf16(rng, m, ext, shape):
    """A bfloat16 initializer (the reference treats it as the float32 values it stands for)."""
    u = rng.integers(0, 2**16, shape).astype(np.uint16) if chance(rng, 0.3) else (rng.uniform(-4, 4, shape).astype(f32).view(np.uint32) >> 16).astype(np.uint16)
    a = (u.astype(np.uint32) << 16).view(f32).reshape(shape)
    n = m.name("w")
    k = pick(rng, ["raw", "typed", "external"])
    m.encs.append(k)
    if k == "external":
        t = pb.Tensor(n, a, enc=k, dtype=pb.BFLOAT16, ext=ext.put(u.tobytes()))
    elif k == "raw":
        t = pb.Tensor(n, a, dtype=pb.BFLOAT16, raw=u.tobytes())
    else:
        t = pb.Tensor(n, a, enc=k, dtype=pb.BFLOAT16, typed_override=pb.packed_ints(5, [int(x) for x in u.reshape(-1)]))
    m.inits.append(t)
    m.weights[n] = ("BF16", tuple(shape), u.tobytes())
    return n


NAMES = {"f8": "F64", "f4": "F32", "f2": "F16", "i8": "I64", "i4": "I32", "i2": "I16", "i1": "I8", "u8": "U64", "u4": "U32", "u2": "U16", "u1": "U8", "b1": "Bool"}


def record(a):
    return (NAMES[a.dtype.str[1:]], a.shape, a.tobytes())


def weight(rng, m, a, ext, kinds=("raw", "raw", "typed", "unpacked", "split", "external", "external", "node")):
    """An initializer or Constant with the value a in one of the encodings; returns its name."""
    n = m.name("w")
    k = pick(rng, kinds)
    if not a.size and k == "external":
        k = "raw"
    if a.dtype == np.float16 and k == "node" and chance(rng, 0.5):
        k = "typed"
    m.encs.append(k)
    if k == "node":
        k2 = pick(rng, ["raw", "typed", "unpacked"])
        t = pb.Tensor("", a, enc="raw") if k2 == "raw" else pb.Tensor("", a, enc="typed", typed_override=typed(a, k2 == "typed"))
        m.nodes.append(pb.Node("Constant", [], [n], value=t))
    elif k == "raw":
        m.inits.append(pb.Tensor(n, a))
    elif k == "external":
        m.inits.append(pb.Tensor(n, a, enc="external", ext=ext.put(a.tobytes())))
    else:
        m.inits.append(pb.Tensor(n, a, enc="typed", typed_override=typed(a, k != "unpacked", k == "split")))
    return n


def consts(rng):
    """Weights of any type that are passed on by operators that only copy."""
    m = M(rng)
    m.encs, m.reshaped = [], set()
    ext = Ext(rng)
    m.weights = {}
    m.out(m.node("Relu", [m.inp(f32, [2])]))
    for _ in range(ri(rng, 1, 4)):
        if chance(rng, 0.06):
            d = rshape(rng, 1, 3, 1, 4)
            w = bf16(rng, m, ext, tuple(d))
            m.out(m.node("Add", [m.node("Cast", [w], to=pb.FLOAT), m.inp(f32, d)]))
            continue
        dt = pick(rng, DTS)
        r = rng.random()
        d = rshape(rng, 1, 3, 1, 4) if r < 0.88 else [ri(rng, 20, 60)] if r < 0.95 else [ri(rng, 20, 40), ri(rng, 60, 120)]
        a = bits(rng, dt, tuple(d))
        w = weight(rng, m, a, ext)
        m.weights[w] = record(a)
        k = pick(rng, ["gather", "gather", "concat", "where", "reshape", "twice"])
        if dt == b1 and k == "gather":
            k = "where"
        if k == "where":
            y = m.node("Where", [m.inp(b1, d), w, m.inp(dt, d, 0, 2)])
        elif k == "concat":
            y = m.node("Concat", [w, m.inp(dt, d, 0, 2)], axis=ri(rng, 0, len(d) - 1))
        elif k == "gather":
            n = d[0]
            y = m.node("Gather", [w, m.inp(i64, [ri(rng, 1, 4)], fn=lambda r, s, q: r.integers(0, n, s).astype(i64))], axis=0)
        elif k == "twice":
            y = m.node("Concat", [w, w, m.inp(dt, d, 0, 2)], axis=0)
            m.out(m.node("Where", [m.inp(b1, d), w, m.inp(dt, d, 0, 2)]))
        else:
            m.reshaped.add(w)
            y = m.node("Concat", [m.node("Reshape", [w, m.cs([-1])]), m.inp(dt, [2], 0, 2)], axis=0)
        m.out(y)
    c = m.build(rtol=0, atol=0, files=ext.done())
    c.weights, c.encs, c.reshaped = m.weights, m.encs, m.reshaped
    return c


def far(rng):
    """Tensors far into a (sparse) external file: past 2, 4 and 8 GB. Returns description, model, files and the constants."""
    m = M(rng)
    parts, have = [], []
    for i, at in enumerate(rng.permutation([2**16, 2**24, 2**31, 2**32, 2**33])[:3]):
        a = rng.integers(0, 2**32, ri(rng, 2, 9), dtype=np.uint64).astype(np.uint32).view(np.int32)
        off = int(at) + int(rng.integers(0, 200))
        parts.append((off, a.tobytes()))
        kv = [("location", "far.bin"), ("offset", str(off))] + ([("length", str(a.nbytes))] if chance(rng, 0.6) else [])
        m.inits.append(pb.Tensor(f"far{i}", a, enc="external", ext=kv))
        m.out(m.node("Concat", [f"far{i}", m.inp(i32, [2])], axis=0))
        have.append(record(a))

    def write(f):
        for off, b in parts:
            f.seek(off)
            f.write(b)

    return f"external data at {[o for o, _ in parts]}", m.build().model.encode(), [("far.bin", write)], have


def branches(rng):
    """Weights inside the bodies of If and Loop, also ones with the names or values of outer weights."""
    m = M(rng)
    m.encs, m.reshaped, m.weights = [], set(), {}
    ext = Ext(rng)
    d = rshape(rng, 1, 3, 1, 3)
    dt = pick(rng, [f32, f32, i64, f64, i32])
    x = m.inp(dt, d, 0, 3)
    pool = []

    def one(g):
        if pool and chance(rng, 0.25):
            a = pool[0].copy() if chance(rng, 0.5) else pick(rng, pool)
        else:
            a = bits(rng, dt, tuple(d))
        pool.append(a)
        old = m.nodes, m.inits
        m.nodes, m.inits = g.nodes, g.inits
        w = weight(rng, m, a, ext)
        m.nodes, m.inits = old
        m.weights[w] = record(a)
        return w

    m.out(m.node("Concat", [one(m), x], axis=0))
    if chance(rng, 0.6):
        br = {}
        for b in ("then_branch", "else_branch"):
            s = Sub(m)
            o = s.node("Concat", [one(s), x], axis=0)
            if chance(rng, 0.4):
                o = s.node("Concat", [o, one(s)], axis=0)
            br[b] = s, o
        if rows(br["then_branch"]) != rows(br["else_branch"]):
            raise Skip
        m.out(m.node("If", [m.inp(b1, [])], **{b: pb.Graph(s.nodes, [], [vi(o, dt, [d[0] * rows((s, o))] + d[1:])], s.inits, name=b) for b, (s, o) in br.items()}))
    else:
        s = Sub(m)
        it, c, v = m.name("i"), m.name("c"), m.name("v")
        w = one(s)
        y = s.node("Where", [s.node("Equal", [v, v]), w, v])
        co = s.node("Identity", [c])
        m.out(m.node("Loop", [m.const(np.array(ri(rng, 1, 3), i64)), m.const(np.array(True)), x], body=pb.Graph(s.nodes, [vi(it, i64), vi(c, b1), vi(v, dt, d)], [vi(co, b1), vi(y, dt, d)], s.inits, name="body")))
    c = m.build(rtol=0, atol=0, files=ext.done())
    c.weights, c.encs, c.reshaped = m.weights, m.encs, m.reshaped
    return c


def rows(so):
    return 1 + sum(n.op == "Concat" for n in so[0].nodes)


def scalars(rng):
    """Rank-0 and one-element constants of all types, carried as native values or literals."""
    m = M(rng)
    m.encs, m.reshaped = [], set()
    ext = Ext(rng)
    m.out(m.node("Relu", [m.inp(f32, [2])]))
    for _ in range(ri(rng, 1, 4)):
        dt = pick(rng, [f32, f32, i64, i64, f64, i32, b1])
        a = bits(rng, dt, pick(rng, [(), (), (1,)]))
        w = weight(rng, m, a, ext)
        k = pick(rng, ["where", "equal", "add", "unsqueeze", "out"] if dt != f64 else ["where", "equal"])
        if k == "where" and a.ndim:
            y = m.node("Where", [m.inp(b1, [3]), w, m.inp(dt, [3], 0, 2)])
        elif k == "add" and dt == f32 and np.all(np.isfinite(a)):
            y = m.node("Add", [w, m.const(np.zeros((2,), dt))])
        elif k == "unsqueeze" and not a.ndim and dt != i32:
            y = m.node("Concat", [m.node("Unsqueeze", [w, m.cs([0])]), m.inp(dt, [2], 0, 2)], axis=0)
        elif k == "equal" and dt != b1:
            x = np.array([a.reshape(-1)[0], 1], dt)
            y = m.node("Equal", [m.inp(dt, [2], fn=lambda r, s, q, x=x: x), w])
        elif dt != f64:
            y = m.node("Identity", [w])
        else:
            continue
        m.out(y)
    return m.build(rtol=0, atol=0, files=ext.done())


def attribute_values(rng):
    """Constants given by the other attributes of Constant; lifted operands in all encodings."""
    m = M(rng)
    m.encs, m.reshaped = [], set()
    ext = Ext(rng)
    x = m.inp(f32, [3, 4])
    for _ in range(ri(rng, 1, 3)):
        k = pick(rng, ["float", "int", "floats", "ints", "slice", "pad", "gatheridx", "tile", "axes", "split", "onehot"])
        n = m.name("w")
        fl = lambda: float(f32(rng.uniform(-5, 5)))
        if k in ("float", "int", "floats", "ints"):
            v = {"float": lambda: pb.A("f", fl()), "int": lambda: pb.A("i", ri(rng, -2**40, 2**40)), "floats": lambda: pb.A("floats", [fl() for _ in range(3)]), "ints": lambda: pb.A("ints", [ri(rng, -2**62, 2**62) for _ in range(3)])}[k]()
            m.nodes.append(pb.Node("Constant", [], [n], **{"value_" + k: v}))
            dt = f32 if k.startswith("f") else i64
            y = m.node("Concat", [n, m.inp(dt, [2], 0, 3)], axis=0) if k.endswith("s") else m.node("Concat", [m.node("Unsqueeze", [n, m.cs([0])]), m.inp(dt, [2], 0, 3)], axis=0)
        elif k == "slice":
            a, b = sorted([ri(rng, 0, 4), ri(rng, 0, 4)])
            if a == b:
                b = a + 1 if a < 4 else a
                a = b - 1
            y = m.node("Slice", [x] + [weight(rng, m, np.array([v], i64), ext) for v in (a, b, 1)])
        elif k == "pad":
            y = m.node("Pad", [x, weight(rng, m, np.array([ri(rng, 0, 2) for _ in range(4)], i64), ext), weight(rng, m, np.array(fl(), f32), ext)], mode="constant")
        elif k == "gatheridx":
            y = m.node("Gather", [x, weight(rng, m, np.array([ri(rng, 0, 2) for _ in range(3)], i64), ext)], axis=0)
        elif k == "tile":
            y = m.node("Tile", [x, weight(rng, m, np.array([ri(rng, 1, 3), ri(rng, 1, 2)], i64), ext)])
        elif k == "axes":
            m.opset = max(m.opset, 18)
            y = m.node("ReduceSum", [x, weight(rng, m, np.array([ri(rng, 0, 1)], i64), ext)], keepdims=1)
        elif k == "split":
            q = ri(rng, 1, 3)
            y, z = m.node("Split", [x, weight(rng, m, np.array([q, 4 - q], i64), ext)], nout=2, axis=1)
            m.out(z)
        else:
            y = m.node("OneHot", [m.inp(i64, [3], 0, 3), weight(rng, m, np.array(4, i64), ext), weight(rng, m, np.array([ri(rng, -9, 9), ri(rng, -9, 9)], f32), ext)])
        m.out(y)
    m.out(m.node("Relu", [x]))
    return m.build(rtol=1e-6, atol=1e-6, files=ext.done())


GENS = [(consts, 4), (scalars, 2), (attribute_values, 2)]
PINS = {}
