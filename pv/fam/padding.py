"""C20: padding specifications of convolutions and pools over wide geometry."""
import numpy as np
from ..gen import *
from .. import pb
from .layers import ri

MODES = ["SAME_UPPER", "SAME_LOWER", "SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET", None]


def geometry(rng, n, maxk=5, maxd=3, maxs=4, extra=6):
    k = [ri(rng, 1, maxk) for _ in range(n)]
    d = [pick(rng, [1, 1, 2, maxd]) for _ in range(n)]
    s = [ri(rng, 1, maxs) for _ in range(n)]
    return k, d, s


def pads_of(rng, n, lim, asym):
    if asym and chance(rng, 0.25):  # a single side
        p = [0] * (2 * n)
        i = ri(rng, 0, 2 * n - 1)
        p[i] = ri(rng, min(1, lim[i % n]), lim[i % n]) if chance(rng, 0.5) else min(1, lim[i % n])
        return p
    if asym and chance(rng, 0.6):
        return [ri(rng, 0, lim[i % n]) for i in range(2 * n)]
    p = [ri(rng, 0, lim[i]) for i in range(n)]
    return p + p


def spatial(rng, n, k, d, at, dims_extra):
    """Input extents for which every window fits; SAME works with any extent."""
    p = at.get("pads", [0] * 2 * n) if at.get("auto_pad", "NOTSET") == "NOTSET" else [0] * 2 * n
    if at.get("auto_pad", "").startswith("SAME"):
        return [ri(rng, 1, 9) for _ in range(n)]
    return [max(1, d[i] * (k[i] - 1) + 1 - p[i] - p[n + i]) + ri(rng, 0, dims_extra) for i in range(n)]


def mode(rng, at, n, lim, asym):
    a = pick(rng, MODES)
    if a is not None:
        at["auto_pad"] = a
    if a in (None, "NOTSET") and chance(rng, 0.8):
        at["pads"] = pads_of(rng, n, lim, asym)


def conv(rng):
    m = M(rng)
    n = pick(rng, [1, 1, 2, 2, 2, 3])
    k, d, s = geometry(rng, n, [9, 5, 3][n - 1], [4, 3, 3][n - 1], [6, 4, 4][n - 1])
    at = {"strides": s, "dilations": d}
    mode(rng, at, n, [4] * n, n < 3)
    if n == 3 and at.get("auto_pad", "").startswith("SAME"):
        del at["auto_pad"]
    dims = spatial(rng, n, k, d, at, 5 if n < 3 else 2)
    if n == 1 and chance(rng, 0.5):
        dims = [dims[0] + ri(rng, 0, 40)]
    for key, dflt in (("strides", [1] * n), ("dilations", [1] * n)):
        if at[key] == dflt and chance(rng, 0.5):
            del at[key]
    if chance(rng, 0.7):
        at["kernel_shape"] = k
    x = m.inp(f32, [1, 1] + dims)
    m.out(m.node("Conv", [x, m.const(vals(rng, f32, [1, 1] + k))] + ([m.const(vals(rng, f32, [1]))] if chance(rng, 0.3) else []), **at))
    return m.build(rtol=1e-3, atol=1e-3)


def conv_t(rng):
    m = M(rng)
    n = pick(rng, [1, 2, 2, 3])
    k, d, s = geometry(rng, n, 4 if n < 3 else 3, 2, 3)
    at = {"strides": s, "dilations": d}
    if chance(rng, 0.3):
        at["auto_pad"] = "NOTSET"
    dims = [ri(rng, 2, 4) for _ in range(n)]
    if chance(rng, 0.8):
        p = [ri(rng, 0, min(3, (d[i] * (k[i] - 1)) // 2)) for i in range(n)]
        at["pads"] = p + p
    if chance(rng, 0.4) and max(s) > 1:
        at["output_padding"] = [ri(rng, 0, s[i] - 1) for i in range(n)]
    x = m.inp(f32, [1, 1] + dims)
    m.out(m.node("ConvTranspose", [x, m.const(vals(rng, f32, [1, 1] + k))], kernel_shape=k, **at))
    return m.build(rtol=1e-3, atol=1e-3)


def pool(rng):
    m = M(rng)
    op = pick(rng, ["MaxPool", "AveragePool"])
    n = pick(rng, [1, 2, 2])
    k, d, s = geometry(rng, n, 5, 2)
    if op == "AveragePool":
        d = [1] * n
    at = {"kernel_shape": k, "strides": s}
    mode(rng, at, n, [kk // 2 for kk in k], True)
    if s == [1] * n and chance(rng, 0.5):
        del at["strides"]
    if d != [1] * n:
        at["dilations"] = d
    if op == "AveragePool" and chance(rng, 0.6):
        at["count_include_pad"] = ri(rng, 0, 1)
    if (op == "MaxPool" or m.opset >= 19) and chance(rng, 0.3) and not at.get("auto_pad", "").startswith("SAME"):
        at["ceil_mode"] = ri(rng, 0, 1)
    x = m.inp(f32, [1, pick(rng, [1, 2])] + spatial(rng, n, k, d, at, 5), -2, 2)
    if chance(rng, 0.4):
        x = m.node("Neg", [m.node("Abs", [x])])  # all values negative: a zero-padded maximum would show
    m.out(m.node(op, [x], **at))
    return m.build(rtol=1e-3, atol=1e-4)


def chain(rng):
    """Padding after operators whose output extents the importer infers."""
    m = M(rng)
    x = m.inp(f32, [1, 2, ri(rng, 4, 8), ri(rng, 4, 8)])
    steps = ri(rng, 1, 3)
    for step in range(steps):
        k = [ri(rng, 1, 3), ri(rng, 1, 3)]
        at = {"kernel_shape": k}
        if chance(rng, 0.5):
            at["strides"] = [ri(rng, 1, 2), ri(rng, 1, 2)]
        a = pick(rng, ["SAME_UPPER", "SAME_LOWER", None])
        if a:
            at["auto_pad"] = a
        else:
            at["pads"] = [k[0] // 2, k[1] // 2] * 2
        r = rng.random()
        if r < 0.4:
            x = m.node("Conv", [x, m.const(vals(rng, f32, [2, 2] + k))], **at)
        elif r < 0.7:
            x = m.node("MaxPool" if step < steps - 1 else pick(rng, ["MaxPool", "AveragePool"]), [x], **at)
        else:
            x = m.node("Relu", [m.node("Conv", [x, m.const(vals(rng, f32, [2, 1] + k))], group=2, **at)])
    m.out(x)
    return m.build(rtol=1e-3, atol=1e-3)


GENS = [(conv, 6), (conv_t, 2), (pool, 6), (chain, 3)]
PINS = {}
