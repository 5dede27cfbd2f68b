"""C11: damaged and contradictory model files."""
import numpy as np
from ..gen import *
from .. import pb
from .control import vi
from .layers import ri
from . import weights as W

# the message types below a message, by field number
SUB = {
    "Model": {7: "Graph", 8: "Opset", 14: "Prop", 25: "Function"},
    "Graph": {1: "Node", 5: "Tensor", 11: "VI", 12: "VI", 13: "VI", 15: "Sparse"},
    "Node": {5: "Attr", 9: "Prop"},
    "Attr": {5: "Tensor", 6: "Graph", 10: "Tensor", 11: "Graph", 14: "Type", 22: "Sparse"},
    "VI": {2: "Type"}, "Type": {1: "TensorType", 4: "Seq", 8: "SparseType", 9: "Seq"}, "Seq": {1: "Type"}, "TensorType": {2: "Shape"}, "Shape": {1: "Dim"},
    "Tensor": {3: "Segment", 13: "Prop"}, "Sparse": {1: "Tensor", 2: "Tensor"}, "Function": {7: "Node"},
}
INTS = [0, 1, 2, 3, 5, 7, 8, 100, 127, 128, 255, 256, 2**15, 2**16, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 2**64 - 2**31, 2**64 - 128]


class Msg:
    def __init__(self, ty, items):
        self.ty, self.items = ty, items  # [[field, wire, value]]; a value may be a Msg

    def encode(self):
        o = b""
        for f, w, v in self.items:
            if isinstance(v, Msg):
                v = v.encode()
            elif isinstance(v, tuple):  # raw bytes, whatever they say
                o += v[0]
                continue
            o += pb.tag(f, w)
            o += pb.varint(v) if w == 0 else v if w in (1, 5) else pb.varint(len(v)) + v if w == 2 else b""
        return o


def tree(b, ty="Model"):
    items = []
    for f, w, v in pb.fields(b):
        s = SUB.get(ty, {}).get(f)
        if w == 2:
            v = tree(bytes(v), s) if s else bytes(v)
        elif w == 5:
            v = bytes(v) if not isinstance(v, int) else v.to_bytes(4, "little")
        elif w == 1:
            v = bytes(v) if not isinstance(v, int) else v.to_bytes(8, "little")
        items.append([f, w, v])
    return Msg(ty, items)


def spots(m, out=None):
    out = [] if out is None else out
    for i, it in enumerate(m.items):
        out.append((m, i))
        if isinstance(it[2], Msg):
            spots(it[2], out)
    return out


def bend(rng, b, other=None):
    """Structure-aware damage of the encoded model b."""
    t = tree(b)
    did = []
    for _ in range(pick(rng, [1, 1, 1, 2, 3, 6])):
        s = spots(t)
        if not s:
            break
        m, i = s[int(rng.integers(0, len(s)))]
        if i >= len(m.items):
            continue
        f, w, v = m.items[i]
        if isinstance(v, tuple):
            continue
        k = pick(rng, ["int", "int", "bytes", "bytes", "del", "dup", "field", "wire", "len", "move", "steal", "nest", "empty", "many"])
        did.append(f"{k} {m.ty}.{f}")
        if k == "int" and w == 0:
            m.items[i][2] = pick(rng, INTS) if chance(rng, 0.7) else v + ri(rng, -2, 2) & 2**64 - 1
        elif k in ("bytes", "int") and isinstance(v, bytes) and w == 2:
            c = pick(rng, ["cut", "grow", "flip", "rand", "name", "utf8", "ints"])
            n = len(v)
            nv = {"cut": lambda: v[:ri(rng, 0, n)], "grow": lambda: v + rng.bytes(ri(rng, 1, 40)), "flip": lambda: bytes(x ^ (1 << ri(rng, 0, 7)) if chance(rng, 2 / max(n, 1)) else x for x in v), "rand": lambda: rng.bytes(n),
                  "name": lambda: pick(rng, [x[2] for q in s for x in [q[0].items[q[1]]] if isinstance(x[2], bytes)] or [v]), "utf8": lambda: v + b"\xff\xfe", "ints": lambda: b"".join(pb.varint(pick(rng, INTS)) for _ in range(ri(rng, 1, 6)))}[c]()
            m.items[i][2] = nv
        elif k == "del":
            del m.items[i]
        elif k == "dup":
            m.items.insert(ri(rng, 0, len(m.items)), [f, w, v])
        elif k == "field":
            m.items[i][0] = pick(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 21, 100, 2**28])
        elif k == "wire":
            m.items[i] = [f, w, (pb.varint(f << 3 | pick(rng, [0, 1, 2, 3, 4, 5, 6, 7])) + rng.bytes(ri(rng, 0, 12)),)]
        elif k == "len" and w == 2 and not isinstance(v, tuple):
            body = v.encode() if isinstance(v, Msg) else v
            m.items[i] = [f, w, (pb.tag(f, 2) + pb.varint(pick(rng, INTS + [len(body) + 1, max(0, len(body) - 1), len(body) + 100])) + body,)]
        elif k == "move":
            m.items.insert(ri(rng, 0, len(m.items) - 1), m.items.pop(i))
        elif k == "steal":
            q, j = s[int(rng.integers(0, len(s)))]
            if j < len(q.items):
                it = q.items[j]
                m.items[i][1:] = [it[1], it[2].encode() if isinstance(it[2], Msg) else it[2]]
        elif k == "nest" and isinstance(v, Msg):
            body = v.encode()
            d = pick(rng, [3, 30, 60, 90, 120, 400, 3000])
            if m.ty in ("Attr", "Graph", "Node", "Model"):
                g = body
                for _ in range(min(d, 200)):  # a graph in a node's attribute, again and again
                    g = pb.fbytes(1, pb.fbytes(4, "If") + pb.fbytes(1, "c") + pb.fbytes(2, "o") + pb.fbytes(5, pb.fbytes(1, "then_branch") + pb.fint(20, 5) + pb.fbytes(6, g))) + pb.fbytes(2, "n")
                m.items[i] = [f, w, g]
            else:
                for _ in range(d):
                    body = pb.fbytes(f, body)
                m.items[i] = [f, w, body]
        elif k == "empty" and w == 2:
            m.items[i][2] = b""
        elif k == "many":
            m.items[i:i] = [[f, w, v]] * pick(rng, [2, 20, 300])
    return t.encode()[:400000], ", ".join(did)


def crush(rng, b):
    """Damage of the bytes themselves."""
    b = bytearray(b)
    k = pick(rng, ["cut", "flip", "flip", "set", "ins", "del", "swap", "dupe", "junk", "varint"])
    n = len(b)
    if k == "cut":
        b = b[:ri(rng, 0, n)]
    elif k == "junk":
        b = bytearray(rng.bytes(ri(rng, 0, 300)))
    else:
        for _ in range(pick(rng, [1, 1, 2, 4, 16])):
            if not b:
                break
            i, j = sorted((int(rng.integers(0, len(b))), int(rng.integers(0, len(b)))))
            if k == "flip":
                b[i] ^= 1 << ri(rng, 0, 7)
            elif k == "set":
                b[i] = pick(rng, [0, 1, 0x7f, 0x80, 0xff])
            elif k == "ins":
                b[i:i] = rng.bytes(ri(rng, 1, 8))
            elif k == "del":
                del b[i:min(j, i + 20)]
            elif k == "swap":
                b[i], b[j] = b[j], b[i]
            elif k == "dupe":
                b[i:i] = b[i:min(j, i + 200)]
            else:
                b[i:i + 1] = pb.varint(pick(rng, INTS))
    return bytes(b), k


def lie(rng):
    """A model with one tensor whose data may contradict its shape: (bytes, consistent, description, files)."""
    dt = pick(rng, W.DTS)
    d = rshape(rng, 0, 3, 1, 4)
    n = int(np.prod(d))
    a = W.bits(rng, dt, tuple(d))
    k = pick(rng, ["raw", "typed", "unpacked", "external"])
    how = pick(rng, ["true", "short", "long", "dims", "neg", "huge", "none", "half", "rank", "zero"])
    dims, data = list(d), a.reshape(-1)
    size = np.dtype(dt).itemsize
    raw = data.tobytes()
    if how == "short":
        data = data[:-1]
        raw = raw[:-1] if chance(rng, 0.5) else data.tobytes()
    elif how == "long":
        data = np.concatenate([data, data[:1]])
        raw = raw + raw[:1] if chance(rng, 0.5) else data.tobytes()
    elif how == "dims":
        if not dims:
            dims = [2]
        else:
            dims[ri(rng, 0, len(dims) - 1)] += ri(rng, 1, 3)
    elif how == "neg":
        dims = [-x for x in dims] if len(dims) > 1 and chance(rng, 0.5) else [-1] + dims
    elif how == "huge":
        dims = pick(rng, [[2**32, 2**32] + dims, [2**62, 4], [2**63 - 1], ([2**64 // size] if size > 2 else [2**62, 4 // size]) + dims, [2**40] + dims, [2**31, 2**31, 4], [2**33, 2**31], dims + [2**56, 2**8]])
    elif how == "none":
        data, raw = data[:0], b""
    elif how == "half":
        dims = dims + [2]
    elif how == "rank":
        dims = [n] if len(d) != 1 else d + [1]
    elif how == "zero":
        dims = dims + [0]
    count = 1
    for x in dims:
        count *= x
    ok = all(x >= 0 for x in dims) and (count == len(data) if k in ("typed", "unpacked") else len(raw) == count * size)
    place = pick(rng, ["init", "init", "node", "sub"])
    t = pb.Tensor("w", a, dims=dims)
    files = ()
    if k == "raw":
        t.raw = raw
    elif k == "external":
        t.enc, t.ext, files = "external", [("location", "w.bin")] + ([("length", str(len(raw)))] if chance(rng, 0.5) else []), [("w.bin", raw)]
        if len(t.ext) == 1 and count >= 0 and len(raw) >= count * size and all(x >= 0 for x in dims):
            ok = None  # more in the file than needed is fine
    else:
        t.enc, t.typed_override = "typed", W.typed(data, k == "typed")
    out = [max(0, x) if x < 2**31 else 4 for x in dims]
    g = None
    if place == "init":
        g = pb.Graph([pb.Node("Identity", ["w"], ["y"])], [], [vi("y", dt, out)], [t])
    elif place == "node":
        t.name = ""
        g = pb.Graph([pb.Node("Constant", [], ["w"], value=t), pb.Node("Identity", ["w"], ["y"])], [], [vi("y", dt, out)], [])
    else:
        then = pb.Graph([pb.Node("Identity", ["w"], ["a"])], [], [vi("a", dt, out)], [t], name="then")
        els = pb.Graph([pb.Node("Identity", ["q"], ["b"])], [], [vi("b", dt, out)], [], name="else")
        g = pb.Graph([pb.Node("If", ["c"], ["y"], then_branch=then, else_branch=els)], [vi("c", b1), vi("q", dt, out)], [vi("y", dt, out)], [])
    g.inputs = list(g.inputs) + [vi("x", f32, [2])]
    g.nodes.append(pb.Node("Relu", ["x"], ["z"]))
    g.outputs.append(vi("z", f32, [2]))
    return pb.Model(g, opset=17).encode(), ok, f"{np.dtype(dt)}{d} as {k} in {place}, {how}: dims {dims}, {len(data)} elements / {len(raw)} bytes", files
