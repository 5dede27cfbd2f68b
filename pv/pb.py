"""ONNX models as plain Python objects, with a hand-written protobuf encoder and decoder."""
import struct
import numpy as np

# TensorProto.DataType
FLOAT, UINT8, INT8, UINT16, INT16, INT32, INT64, STRING, BOOL, FLOAT16, DOUBLE, UINT32, UINT64 = range(1, 14)
COMPLEX64, COMPLEX128, BFLOAT16 = 14, 15, 16
NP2PB = {
    np.dtype(np.float32): FLOAT, np.dtype(np.uint8): UINT8, np.dtype(np.int8): INT8, np.dtype(np.uint16): UINT16,
    np.dtype(np.int16): INT16, np.dtype(np.int32): INT32, np.dtype(np.int64): INT64, np.dtype(np.bool_): BOOL,
    np.dtype(np.float16): FLOAT16, np.dtype(np.float64): DOUBLE, np.dtype(np.uint32): UINT32, np.dtype(np.uint64): UINT64,
}
PB2NP = {v: k for k, v in NP2PB.items()}


# ------------------------------------------------------------------ wire encoding
def varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def tag(f, w):
    return varint(f << 3 | w)


def fint(f, v):
    return tag(f, 0) + varint(int(v))


def fbytes(f, v):
    if isinstance(v, str):
        v = v.encode()
    return tag(f, 2) + varint(len(v)) + bytes(v)


def ffloat(f, v):
    return tag(f, 5) + struct.pack("<f", v)


def packed_ints(f, vs):
    return fbytes(f, b"".join(varint(int(v)) for v in vs))


# ------------------------------------------------------------------ objects
class Tensor:
    """TensorProto. `enc`: 'raw', 'typed' or 'external' (then `ext` is a list of (key, value))."""

    def __init__(self, name="", array=None, enc="raw", dtype=None, dims=None, raw=None, ext=None, typed_override=None):
        self.name, self.enc, self.ext, self.raw = name, enc, ext, raw
        self.array = None if array is None else np.asarray(array)
        self.dtype = dtype if dtype is not None else (NP2PB[self.array.dtype] if self.array is not None else FLOAT)
        self.dims = list(dims) if dims is not None else (list(self.array.shape) if self.array is not None else [])
        self.typed_override = typed_override

    def encode(self):
        o = b"".join(fint(1, d) for d in self.dims) + fint(2, self.dtype)
        if self.enc == "raw":
            o += fbytes(9, self.raw if self.raw is not None else np.ascontiguousarray(self.array).tobytes())
        elif self.enc == "typed":
            o += self.typed_override if self.typed_override is not None else self._typed()
        elif self.enc == "external":
            for k, v in self.ext:
                o += fbytes(13, fbytes(1, k) + fbytes(2, v))
            o += fint(14, 1)
        elif self.enc == "none":
            pass
        if self.name:
            o += fbytes(8, self.name)
        return o

    def _typed(self):
        a = self.array.reshape(-1)
        if a.size == 0:
            return b""
        d = self.dtype
        if d == FLOAT:
            return fbytes(4, a.astype("<f4").tobytes())
        if d in (INT32, INT16, INT8, UINT16, UINT8, BOOL):
            return packed_ints(5, [int(x) for x in a])
        if d == FLOAT16:
            return packed_ints(5, [int(x) for x in a.view(np.uint16)])
        if d == INT64:
            return packed_ints(7, [int(x) for x in a])
        if d == DOUBLE:
            return fbytes(10, a.astype("<f8").tobytes())
        if d in (UINT32, UINT64):
            return packed_ints(11, [int(x) for x in a])
        raise ValueError(d)


class VI:
    """ValueInfoProto of tensor type; dims None = no shape; a dim is int, str (symbol) or None (unknown)."""

    def __init__(self, name, dtype, dims):
        self.name, self.dtype, self.dims = name, dtype, dims
        if not isinstance(dtype, int):
            self.dtype = NP2PB[np.dtype(dtype)]

    def encode(self):
        t = fint(1, self.dtype)
        if self.dims is not None:
            s = b""
            for d in self.dims:
                if d is None:
                    s += fbytes(1, b"")
                elif isinstance(d, str):
                    s += fbytes(1, fbytes(2, d))
                else:
                    s += fbytes(1, fint(1, d))
            t += fbytes(2, s)
        return fbytes(1, self.name) + fbytes(2, fbytes(1, t))


class A:
    """An attribute whose type cannot be inferred from the Python value: kind in i f s t g ints floats strings."""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def enc_attr(name, v):
    o = fbytes(1, name)
    k = None
    if isinstance(v, A):
        k, v = v.kind, v.v
    elif isinstance(v, bool) or isinstance(v, (int, np.integer)):
        k = "i"
    elif isinstance(v, (float, np.floating)):
        k = "f"
    elif isinstance(v, (str, bytes)):
        k = "s"
    elif isinstance(v, (np.ndarray, Tensor)):
        k = "t"
    elif isinstance(v, Graph):
        k = "g"
    elif isinstance(v, (list, tuple)):
        e = v[0] if len(v) else 0
        k = "floats" if isinstance(e, (float, np.floating)) else "strings" if isinstance(e, (str, bytes)) else "ints"
    if k == "i":
        return o + fint(3, v) + fint(20, 2)
    if k == "f":
        return o + ffloat(2, v) + fint(20, 1)
    if k == "s":
        return o + fbytes(4, v) + fint(20, 3)
    if k == "t":
        t = v if isinstance(v, Tensor) else Tensor("", v)
        return o + fbytes(5, t.encode()) + fint(20, 4)
    if k == "g":
        return o + fbytes(6, v.encode()) + fint(20, 5)
    if k == "ints":
        return o + b"".join(fint(8, x) for x in v) + fint(20, 7)
    if k == "floats":
        return o + b"".join(ffloat(7, x) for x in v) + fint(20, 6)
    if k == "strings":
        return o + b"".join(fbytes(9, x) for x in v) + fint(20, 8)
    raise ValueError((name, v))


class Node:
    def __init__(self, op, inputs, outputs, name=None, domain="", **attrs):
        self.op, self.inputs, self.outputs = op, list(inputs), list(outputs)
        self.name, self.domain, self.attrs = name, domain, attrs

    def encode(self):
        o = b"".join(fbytes(1, i) for i in self.inputs) + b"".join(fbytes(2, i) for i in self.outputs)
        if self.name:
            o += fbytes(3, self.name)
        o += fbytes(4, self.op)
        for k, v in self.attrs.items():
            if v is not None:
                o += fbytes(5, enc_attr(k, v))
        if self.domain:
            o += fbytes(7, self.domain)
        return o

    def __repr__(self):
        return f"{self.op}({', '.join(self.inputs)}) -> {', '.join(self.outputs)} {self.attrs}"


class Graph:
    def __init__(self, nodes, inputs, outputs, inits=(), vis=(), name="g"):
        self.nodes, self.inputs, self.outputs = list(nodes), list(inputs), list(outputs)
        self.inits, self.vis, self.name = list(inits), list(vis), name

    def encode(self):
        o = b"".join(fbytes(1, n.encode()) for n in self.nodes) + fbytes(2, self.name)
        o += b"".join(fbytes(5, t.encode()) for t in self.inits)
        o += b"".join(fbytes(11, v.encode()) for v in self.inputs)
        o += b"".join(fbytes(12, v.encode()) for v in self.outputs)
        o += b"".join(fbytes(13, v.encode()) for v in self.vis)
        return o


class Model:
    def __init__(self, graph, opset=18, ir=9, domains=()):
        self.graph, self.opset, self.ir, self.domains = graph, opset, ir, list(domains)

    def encode(self):
        o = fint(1, self.ir) + fbytes(2, "verif") + fbytes(7, self.graph.encode())
        imports = [("", self.opset)] if self.opset is not None else []
        for d, v in self.domains:  # (domains in capital letters come before the default domain)
            imports.insert(0 if d.isupper() else len(imports), (d.lower(), v))
        return o + b"".join(fbytes(8, fbytes(1, d) + fint(2, v)) for d, v in imports)


# ------------------------------------------------------------------ decoding
def rd_varint(b, p):
    r = s = 0
    while True:
        c = b[p]
        p += 1
        r |= (c & 0x7F) << s
        s += 7
        if not c & 0x80:
            return r, p


def fields(b):
    p = 0
    while p < len(b):
        t, p = rd_varint(b, p)
        f, w = t >> 3, t & 7
        if w == 0:
            v, p = rd_varint(b, p)
        elif w == 1:
            v = b[p:p + 8]
            p += 8
        elif w == 2:
            n, p = rd_varint(b, p)
            v = b[p:p + n]
            p += n
        elif w == 5:
            v = b[p:p + 4]
            p += 4
        else:
            raise ValueError("wire type")
        yield f, w, v


def s64(v):
    return v - (1 << 64) if v >= 1 << 63 else v


def _ints(w, v):
    if w == 0:
        return [s64(v)]
    out, p = [], 0
    while p < len(v):
        x, p = rd_varint(v, p)
        out.append(s64(x))
    return out


def dec_tensor(b, dirname=None):
    dims, dt, name, raw, i32, i64, u64, f32, f64, ext, loc = [], 0, "", None, [], [], [], b"", b"", [], 0
    for f, w, v in fields(b):
        if f == 1:
            dims += _ints(w, v)
        elif f == 2:
            dt = v
        elif f == 8:
            name = v.decode()
        elif f == 9:
            raw = v
        elif f == 4:
            f32 += v
        elif f == 5:
            i32 += _ints(w, v)
        elif f == 7:
            i64 += _ints(w, v)
        elif f == 11:
            u64 += _ints(w, v)
        elif f == 10:
            f64 += v
        elif f == 13:
            d = {ff: vv.decode() for ff, _, vv in fields(v)}
            ext.append((d.get(1, ""), d.get(2, "")))
        elif f == 14:
            loc = v
    t = Tensor(name, enc="raw", dtype=dt, dims=dims)
    t.array = None
    if loc == 1:
        t.enc, t.ext = "external", ext
        if dirname is not None:
            import os
            e = dict(ext)
            data = open(os.path.join(dirname, e["location"]), "rb").read()
            off = int(e.get("offset", 0))
            n = int(e["length"]) if "length" in e else len(data) - off
            t.array = np.frombuffer(data[off:off + n], PB2NP[dt]).reshape(dims)
        return t
    if dt not in PB2NP:
        return t
    nd = PB2NP[dt]
    if raw is not None:
        a = np.frombuffer(raw, nd)
    elif dt == FLOAT:
        a = np.frombuffer(f32, "<f4")
    elif dt == DOUBLE:
        a = np.frombuffer(f64, "<f8")
    elif dt == INT64:
        a = np.array(i64, np.int64)
    elif dt in (UINT32, UINT64):
        a = np.array([x & (2**64 - 1) for x in u64], np.uint64).astype(nd)
    elif dt == FLOAT16:
        a = np.array(i32, np.uint16).view(np.float16)
    else:
        a = np.array(i32, np.int64).astype(nd)
    t.array = a.reshape(dims).copy()
    return t


def dec_attr(b, dirname=None):
    name, d, ints, floats, strs, typ = "", {}, [], [], [], 0
    for f, w, v in fields(b):
        if f == 1:
            name = v.decode()
        elif f == 20:
            typ = v
        elif f == 3:
            d["i"] = s64(v)
        elif f == 2:
            d["f"] = struct.unpack("<f", v)[0]
        elif f == 4:
            d["s"] = v.decode(errors="replace")
        elif f == 5:
            d["t"] = dec_tensor(v, dirname)
        elif f == 6:
            d["g"] = dec_graph(v, dirname)
        elif f == 8:
            ints += _ints(w, v)
        elif f == 7:
            floats += [struct.unpack("<f", v[k:k + 4])[0] for k in range(0, len(v), 4)]
        elif f == 9:
            strs.append(v.decode(errors="replace"))
    k = {1: "f", 2: "i", 3: "s", 4: "t", 5: "g", 6: "floats", 7: "ints", 8: "strings"}.get(typ)
    if k is None:
        k = next(iter(d), "ints")
    v = {"ints": ints, "floats": floats, "strings": strs}[k] if k in ("ints", "floats", "strings") else d.get(k, {"i": 0, "f": 0.0, "s": ""}.get(k))
    if k in ("ints", "floats", "strings"):
        v = A(k, v)
    return name, v


def dec_node(b, dirname=None):
    n = Node("", [], [])
    for f, _, v in fields(b):
        if f == 1:
            n.inputs.append(v.decode())
        elif f == 2:
            n.outputs.append(v.decode())
        elif f == 3:
            n.name = v.decode()
        elif f == 4:
            n.op = v.decode()
        elif f == 5:
            k, a = dec_attr(v, dirname)
            n.attrs[k] = a
        elif f == 7:
            n.domain = v.decode()
    return n


def dec_vi(b):
    name, dt, dims = "", 0, None
    for f, _, v in fields(b):
        if f == 1:
            name = v.decode()
        elif f == 2:
            for f2, _, v2 in fields(v):
                if f2 == 1:
                    for f3, _, v3 in fields(v2):
                        if f3 == 1:
                            dt = v3
                        elif f3 == 2:
                            dims = []
                            for f4, _, v4 in fields(v3):
                                if f4 == 1:
                                    d = None
                                    for f5, _, v5 in fields(v4):
                                        d = s64(v5) if f5 == 1 else v5.decode() if f5 == 2 else d
                                    dims.append(d)
    return VI(name, dt, dims)


def dec_graph(b, dirname=None):
    g = Graph([], [], [])
    for f, _, v in fields(b):
        if f == 1:
            g.nodes.append(dec_node(v, dirname))
        elif f == 2:
            g.name = v.decode()
        elif f == 5:
            g.inits.append(dec_tensor(v, dirname))
        elif f == 11:
            g.inputs.append(dec_vi(v))
        elif f == 12:
            g.outputs.append(dec_vi(v))
        elif f == 13:
            g.vis.append(dec_vi(v))
    return g


def dec_model(b, dirname=None):
    m = Model(None, None)
    for f, _, v in fields(b):
        if f == 7:
            m.graph = dec_graph(v, dirname)
        elif f == 8:
            d, ver = "", 0
            for f2, _, v2 in fields(v):
                if f2 == 1:
                    d = v2.decode()
                elif f2 == 2:
                    ver = v2
            if d in ("", "ai.onnx"):
                m.opset = ver
            else:
                m.domains.append((d, ver))
    return m
