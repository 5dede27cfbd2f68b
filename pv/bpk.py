"""Reads the weight files written through the stand-in burn-store."""
import struct

NAMES = ["F64", "F32", "F16", "BF16", "I64", "I32", "I16", "I8", "U64", "U32", "U16", "U8", "Bool"]


def read(b):
    """[(path, dtype name, shape, bytes)]"""
    assert b[:8] == b"MINIPACK", b[:8]
    p = 8

    def n():
        nonlocal p
        v, = struct.unpack_from("<Q", b, p)
        p += 8
        return v

    def s():
        nonlocal p
        k = n()
        p += k
        return b[p - k:p]
    for _ in range(n()):
        s(), s()
    out = []
    for _ in range(n()):
        path = s().decode()
        dt = NAMES[b[p]]
        p += 1
        shape = tuple(n() for _ in range(n()))
        out.append((path, dt, shape, s()))
    return out
