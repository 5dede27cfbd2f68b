"""C04: neural-network layers."""
import math
import numpy as np
from ..gen import *
from .. import pb
from .linalg import nax


def ri(rng, a, b):
    return int(rng.integers(a, b + 1))


def spatial_attrs(rng, n, dims, k, dil, pads=True, auto=True, asym=0.0):
    """Padding attributes and the padded extents (None for auto_pad)."""
    at = {}
    r = rng.random()
    if auto and r < 0.2:
        at["auto_pad"] = pick(rng, ["SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET"])
    elif pads and r < 0.65:
        if chance(rng, asym):
            at["pads"] = [ri(rng, 0, 2) for _ in range(2 * n)]
        else:
            p = [ri(rng, 0, 2) for _ in range(n)]
            at["pads"] = p + p
    return at


def conv(rng):
    m = M(rng)
    n = pick(rng, [1, 1, 2, 2, 2, 3])
    g = pick(rng, [1, 1, 1, 2, 3])
    cg, mg = ri(rng, 1, 3), ri(rng, 1, 2)
    C, Mo = cg * g, mg * g
    k = [ri(rng, 1, 3) for _ in range(n)]
    dil = [pick(rng, [1, 1, 2]) for _ in range(n)]
    dims = [dil[i] * (k[i] - 1) + 1 + ri(rng, 0, 4 if n < 3 else 2) for i in range(n)]
    at = spatial_attrs(rng, n, dims, k, dil, asym=ASYM if n < 3 else 0, auto=n < 3)
    if chance(rng, 0.6):
        at["strides"] = [ri(rng, 1, 3) for _ in range(n)]
    if any(d != 1 for d in dil) or chance(rng, 0.4):
        at["dilations"] = dil
    if g != 1 or chance(rng, 0.4):
        at["group"] = g
    if chance(rng, 0.7):
        at["kernel_shape"] = k
    dt = pick(rng, [f32, f32, f32, f64])
    x = m.inp(dt, [pick(rng, [1, 2] + [m.name("n")] * ("SAME" not in at.get("auto_pad", ""))), C] + dims)
    ins = [x, m.const(vals(rng, dt, [Mo, cg] + k))]
    if chance(rng, 0.6):
        ins.append(m.const(vals(rng, dt, [Mo])))
    m.out(m.node("Conv", ins, **at))
    return m.build(rtol=1e-3, atol=1e-3)


ASYM = 0.3


def conv_transpose(rng):
    m = M(rng)
    n = pick(rng, [1, 1, 2, 2, 2, 3])
    g = pick(rng, [1, 1, 1, 2])
    cg, mg = ri(rng, 1, 3), ri(rng, 1, 2)
    C = cg * g
    k = [ri(rng, 1, 3) for _ in range(n)]
    dil = [pick(rng, [1, 1, 2]) for _ in range(n)]
    st = [ri(rng, 1, 3) for _ in range(n)]
    dims = [ri(rng, 2, 4) for i in range(n)]
    at = {}
    if chance(rng, 0.4):
        p = [ri(rng, 0, min(1, dil[i] * (k[i] - 1))) for i in range(n)]
        at["pads"] = p + p
    if any(s != 1 for s in st):
        at["strides"] = st
        if chance(rng, 0.4):
            at["output_padding"] = [ri(rng, 0, st[i] - 1) for i in range(n)]
    if any(d != 1 for d in dil) or chance(rng, 0.3):
        at["dilations"] = dil
    if g != 1 or chance(rng, 0.3):
        at["group"] = g
    if chance(rng, 0.7):
        at["kernel_shape"] = k
    x = m.inp(f32, [pick(rng, [1, 2, m.name("n")]), C] + dims)
    ins = [x, m.const(vals(rng, f32, [C, mg] + k))]
    if chance(rng, 0.6):
        ins.append(m.const(vals(rng, f32, [mg * g])))
    m.out(m.node("ConvTranspose", ins, **at))
    return m.build(rtol=1e-3, atol=1e-3)


def deform(rng):
    m = M(rng, opset=int(rng.choice([19, 20, 21])))
    g, og = pick(rng, [1, 1, 2]), pick(rng, [1, 1, 2])
    C = 2 * ri(rng, 1, 1)
    Mo = g * ri(rng, 1, 2)
    k = [ri(rng, 1, 3), ri(rng, 1, 3)]
    st = [ri(rng, 1, 2)] * 2 if chance(rng, 0.6) else [ri(rng, 1, 2), ri(rng, 1, 2)]
    dil = [pick(rng, [1, 1, 2]), pick(rng, [1, 1, 2])]
    p = [ri(rng, 0, 1), ri(rng, 0, 1)]
    H, W = (dil[i] * (k[i] - 1) + 1 + ri(rng, 0, 2) for i in range(2))
    oh, ow = ((d + 2 * p[i] - dil[i] * (k[i] - 1) - 1) // st[i] + 1 for i, d in enumerate((H, W)))
    at = {"pads": p + p, "strides": st, "dilations": dil, "group": g, "offset_group": og, "kernel_shape": k}
    x = m.inp(f32, [2, C, H, W])
    off = m.inp(f32, [2, og * k[0] * k[1] * 2, oh, ow], -1.2, 1.2)
    ins = [x, m.const(vals(rng, f32, [Mo, C // g] + k)), off]
    b = chance(rng, 0.5)
    if b:
        ins.append(m.const(vals(rng, f32, [Mo])))
    if chance(rng, 0.5):
        ins += [""] * (not b) + [m.inp(f32, [2, og * k[0] * k[1], oh, ow], 0, 1)]
    m.out(m.node("DeformConv", ins, **at))
    return m.build(rtol=1e-3, atol=2e-3)


def pool(rng):
    m = M(rng)
    op = pick(rng, ["MaxPool", "AveragePool"])
    n = pick(rng, [1, 2, 2])
    k = [ri(rng, 1, 3) for _ in range(n)]
    dil = [1] * n
    if op == "MaxPool" and chance(rng, 0.3):  # AveragePool: see PINS
        dil = [ri(rng, 1, 2) for _ in range(n)]
    dims = [dil[i] * (k[i] - 1) + 1 + ri(rng, 0, 4) for i in range(n)]
    at = {"kernel_shape": k}
    r = rng.random()
    if r < 0.2:
        at["auto_pad"] = pick(rng, ["SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET"])
    elif r < 0.65:
        if chance(rng, ASYM):
            at["pads"] = [ri(rng, 0, k[i % n] // 2) for i in range(2 * n)]
        else:
            p = [ri(rng, 0, k[i] // 2) for i in range(n)]
            at["pads"] = p + p
    if chance(rng, 0.7):
        at["strides"] = [ri(rng, 1, 3) for _ in range(n)]
    if dil != [1] * n:
        at["dilations"] = dil
    if op == "AveragePool" and chance(rng, 0.5):
        at["count_include_pad"] = ri(rng, 0, 1)
    if (op == "MaxPool" or m.opset >= 19) and chance(rng, 0.3):
        at["ceil_mode"] = ri(rng, 0, 1)
    x = m.inp(pick(rng, [f32, f32, f64]), [pick(rng, [1, 2] + [m.name("n")] * ("SAME" not in at.get("auto_pad", ""))), ri(rng, 1, 3)] + dims)
    m.out(m.node(op, [x], **at))
    return m.build(rtol=1e-3, atol=1e-4)


def gap(rng):
    m = M(rng)
    n = ri(rng, 1, 2)
    x = m.inp(pick(rng, [f32, f64]), [m.name("n") if chance(rng, 0.3) else 2, ri(rng, 1, 4)] + [m.name("s") if chance(rng, 0.3) else ri(rng, 1, 5) for _ in range(n)])
    m.out(m.node("GlobalAveragePool", [x]))
    return m.build(rtol=1e-3, atol=1e-4)


def norm(rng):
    m = M(rng)
    op = pick(rng, ["BatchNormalization", "BatchNormalization", "InstanceNormalization", "GroupNormalization", "LayerNormalization", "LayerNormalization"])
    dt = f64 if op[0] in "BI" and chance(rng, 0.2) else f32
    run = op[0] == "B" and chance(rng, 0.25)  # parameters computed at run time
    at = {}
    if op == "BatchNormalization" or chance(rng, 0.7):  # known: its default
        at["epsilon"] = float(f32(pick(rng, [1e-5, 1e-3, 0.01, 0.1])))
    n = ri(rng, 1, 2) if op != "BatchNormalization" else pick(rng, [0, 1, 2, 2, 3])
    C = ri(rng, 2, 4)
    sc = pick(rng, [1.0, 1.0, 0.01, 0.003])  # data so small that epsilon counts

    def w(shape, lo=-2.0, hi=2.0):
        if run and chance(rng, 0.6):
            x = m.inp(dt, shape, lo, hi)
            return m.node("Abs", [x]) if lo > 0 and chance(rng, 0.4) else x
        return m.const(vals(rng, dt, shape, lo, hi))
    if op == "LayerNormalization":
        if m.opset < 17:
            m.opset = 17
        d = rshape(rng, 1, 4, 2, 4)
        x = m.inp(dt, symbolic(rng, m, d[:-1], 0.3) + d[-1:], -3 * sc, 3 * sc)
        ax = len(d) - 1
        if chance(rng, 0.7):
            at["axis"] = nax(rng, ax, len(d))
        ins = [x, w(d[ax:])]
        if chance(rng, 0.6):
            ins.append(w(d[ax:]))
        if chance(rng, 0.3):
            at["stash_type"] = 1
    else:
        if op == "GroupNormalization":
            m.opset = pick(rng, [21, 22])  # opset 18: see PINS
            g = ri(rng, 1, 3)
            C = g * ri(rng, 1, 3)
            at["num_groups"] = g
            per = C if m.opset >= 21 else g
        else:
            per = C
        x = m.inp(dt, [m.name("n") if chance(rng, 0.3) else 2, C] + [ri(rng, 2, 4) for _ in range(n)], -3 * sc, 3 * sc)
        ins = [x, w([per]), w([per])]
        if op == "BatchNormalization":
            ins += [w([per], -2 * sc, 2 * sc), w([per], 0.2 * sc * sc, 2 * sc * sc)]
            if chance(rng, 0.4):
                at["momentum"] = float(f32(0.8))
            if chance(rng, 0.3) and m.opset >= 14:
                at["training_mode"] = 0
    m.out(m.node(op, ins, **at))
    return m.build(rtol=2e-3, atol=1e-3)


def nearest_map(L, O, sc, ct, nm):
    """The element of L that each of O elements is a copy of."""
    f = {"floor": math.floor, "ceil": math.ceil, "round_prefer_floor": lambda v: math.ceil(v - 0.5), "round_prefer_ceil": lambda v: math.floor(v + 0.5)}[nm]
    g = {"half_pixel": lambda o: (o + 0.5) / sc - 0.5, "pytorch_half_pixel": lambda o: (o + 0.5) / sc - 0.5 if O > 1 else 0.0, "asymmetric": lambda o: o / sc,
         "align_corners": lambda o: 0.0 if O == 1 else o * (L - 1) / (O - 1)}[ct]
    return [min(max(f(g(o)), 0), L - 1) for o in range(O)]


def resize(rng):
    """Sizes or scales, constant or computed at run time. The engine knows one rule of nearest neighbours (others: where they agree; see PINS)."""
    m = M(rng)
    if m.opset < 11:
        m.opset = pick(rng, [10, 11])
    n = pick(rng, [1, 2, 2])
    d = [ri(rng, 1, 2), ri(rng, 1, 2)] + [ri(rng, 2, 5) for _ in range(n)]
    mode = pick(rng, ["nearest", "linear", "cubic"])
    old = m.opset < 11
    rt = chance(rng, 0.4)
    by_size = not old and chance(rng, 0.5)
    if by_size:
        out = [ri(rng, 1, 9) for _ in range(n)]
        sc = [o / a for o, a in zip(out, d[2:])]
    else:
        sc = [pick(rng, [1.0, 2.0, 1.5, 3.0, 0.5, 2.5, 4.0]) for _ in range(n)]
        out = [int(a * s) for a, s in zip(d[2:], sc)]
        if any(a * s != int(a * s) for a, s in zip(d[2:], sc)):
            raise Skip
    at = {"mode": mode}
    ct, nm = "half_pixel", "round_prefer_floor"
    if old:
        if mode != "nearest":
            raise Skip
    else:
        if chance(rng, 0.8):
            ct = at["coordinate_transformation_mode"] = pick(rng, ["align_corners", "half_pixel", "pytorch_half_pixel", "asymmetric"])
        if chance(rng, 0.6):
            nm = at["nearest_mode"] = pick(rng, ["floor", "round_prefer_floor", "round_prefer_ceil", "ceil"] if mode == "nearest" else ["floor", "round_prefer_floor"])
        if mode == "nearest":
            if any(nearest_map(L, O, s, ct, nm) != [o * L // O for o in range(O)] for L, O, s in zip(d[2:], out, sc)):
                at["coordinate_transformation_mode"], at["nearest_mode"] = "asymmetric", "floor"
        elif ct == "asymmetric" or ct == "pytorch_half_pixel" and 1 in out:
            at["coordinate_transformation_mode"] = "align_corners"
        for k, v in [("cubic_coeff_a", -0.75), ("exclude_outside", 0), ("extrapolation_value", 0.0)] + [("antialias", 0), ("keep_aspect_ratio_policy", "stretch")] * (m.opset >= 18):
            if chance(rng, 0.15):
                at[k] = v
    x = m.inp(f32, symbolic(rng, m, d[:1], 0.3 * (not by_size)) + d[1:])
    if chance(rng, 0.3):
        x = m.node("Neg", [x])
    if by_size:
        v = np.array(d[:2] + out, i64)
        if not rt:
            w = m.cs(v)
        elif chance(rng, 0.4):
            w = m.node("Shape", [m.inp(f32, [int(q) for q in v])])
        elif chance(rng, 0.5):
            w = m.node("Concat", [m.node("Slice", [m.node("Shape", [x]), m.cs([0]), m.cs([2])]), m.cs(out)], axis=0)
        else:
            w = m.inp(i64, [n + 2], fn=lambda *_: v)
        ins = [x, "", "", w]
    else:
        v = np.array([1.0, 1.0] + sc, f32)
        w = m.inp(f32, [n + 2], fn=lambda *_: v) if rt else m.const(v)
        ins = [x, w] if old else [x, "" if chance(rng, 0.7) else m.const(np.zeros([0], f32)), w]
    y = m.node("Resize", ins, **at)
    m.out(y)
    if chance(rng, 0.3):
        m.out(m.node("Shape", [y]))
    return m.build(rtol=1e-3, atol=1e-3)


def grid(rng):
    m = M(rng, opset=int(rng.choice([16, 20, 21])))
    at = {}
    if chance(rng, 0.8):
        at["mode"] = pick(rng, ["bilinear", "nearest"] if m.opset < 20 else ["linear", "nearest"])
    if chance(rng, 0.8):
        at["padding_mode"] = pick(rng, ["zeros", "border", "reflection"])
    if chance(rng, 0.7):
        at["align_corners"] = ri(rng, 0, 1)
    H, W = ri(rng, 2, 4), ri(rng, 2, 4)
    x = m.inp(f32, [2, ri(rng, 1, 2), H, W])
    g = m.inp(f32, [2, ri(rng, 1, 3), ri(rng, 1, 3), 2], -1.3, 1.3)
    m.out(m.node("GridSample", [x, g], **at))
    return m.build(rtol=1e-3, atol=2e-3)


def recurrent(rng):
    m = M(rng)
    op = pick(rng, ["LSTM", "LSTM", "GRU", "RNN"])
    G = {"LSTM": 4, "GRU": 3, "RNN": 1}[op]
    S, N, I, H = ri(rng, 1, 4), ri(rng, 1, 3), ri(rng, 1, 3), ri(rng, 1, 3)
    dire = pick(rng, ["forward", "forward", "reverse", "bidirectional"])
    D = 2 if dire == "bidirectional" else 1
    at = {"hidden_size": H}
    if dire != "forward" or chance(rng, 0.4):
        at["direction"] = dire
    lay = 0
    if chance(rng, 0.25):
        lay = at["layout"] = 1
    if op == "GRU" and chance(rng, 0.7):
        at["linear_before_reset"] = ri(rng, 0, 1)
    if op == "LSTM" and chance(rng, 0.1):
        at["input_forget"] = 1
    if op != "GRU" and chance(rng, 0.2):
        acts = ["Sigmoid", "Relu", "Tanh", "HardSigmoid", "LeakyRelu", "Softplus"]
        base = [pick(rng, acts) for _ in range(3 if op == "LSTM" else 1)]
        if chance(rng, 0.3):
            base = [pick(rng, [str.lower, str.upper])(a) for a in base]
        at["activations"] = base * D
    dims = [S, N, I]
    if chance(rng, 0.2):
        dims[1] = m.name("n")
    x = m.inp(f32, [dims[1], dims[0], I] if lay else dims, -1, 1)

    def w(*s):
        return m.const(vals(rng, f32, s, -1, 1))
    ins = [x, w(D, G * H, I), w(D, G * H, H)]
    b = chance(rng, 0.7)
    ins.append(w(D, 2 * G * H) if b else "")
    nstate = 2 if op == "LSTM" else 1
    if lay and not (dire == "bidirectional" or op == "GRU"):
        raise Skip  # see PINS
    if not lay and chance(rng, 0.4):
        ins.append("")
        for _ in range(nstate):
            ins.append(m.inp(f32, [dims[1], D, H] if lay else [D, dims[1], H], -1, 1))
    while ins[-1] == "":
        ins.pop()
    outs = [m.name("y") for _ in range(1 + nstate)]
    use = outs[:1] if lay else [o for o in outs if chance(rng, 0.6)] or [pick(rng, outs)]
    outs = [o if o in use else "" for o in outs]
    while outs[-1] == "":
        outs.pop()
    m.node(op, ins, outs=outs, **at)
    m.out(*use)
    return m.build(rtol=2e-3, atol=1e-3)


def prelu(rng):
    """A slope shared by all elements, or one per channel (other slopes: known)."""
    m = M(rng)
    r = ri(rng, 1, 5)
    dt = pick(rng, [f32, f32, f64])
    dims = [ri(rng, 1, 4) for _ in range(r)]
    k = pick(rng, ["one", "ones", "scalar"] + ["chan", "chan1"] * 2 * (r > 1))
    sh = {"one": [1], "ones": [1] * ri(rng, 1, r), "scalar": []}.get(k)
    if sh is None:
        sh = [dims[1]] + [1] * (r - 2)
        if k == "chan1":
            sh = [1] + sh
    s = m.const(vals(rng, dt, tuple(sh), -1, 2))
    xs = [m.inp(dt, symbolic(rng, m, dims[:1]) + dims[1:])]
    if chance(rng, 0.3):  # the same slope for two inputs
        xs.append(m.inp(dt, [ri(rng, 1, 3)] + dims[1:]))
    for x in xs:
        m.out(m.node("PRelu", [x, s]))
    return m.build(rtol=1e-3, atol=1e-3)


def cnn(rng):
    """A small image network."""
    m = M(rng)
    C, s = ri(rng, 1, 3), ri(rng, 5, 8)
    x = m.inp(f32, [m.name("n") if chance(rng, 0.5) else 2, C, s, s])
    for _ in range(ri(rng, 1, 3)):
        Mo = ri(rng, 1, 4)
        k = pick(rng, [1, 3])
        y = m.node("Conv", [x, m.const(vals(rng, f32, [Mo, C, k, k], -1, 1))] + ([m.const(vals(rng, f32, [Mo]))] if chance(rng, 0.6) else []),
                   pads=[k // 2] * 4, kernel_shape=[k, k])
        if chance(rng, 0.5):
            y = m.node("BatchNormalization", [y] + [m.const(vals(rng, f32, [Mo], 0.3, 1.5)) for _ in range(4)], epsilon=1e-3)
        y = m.node(pick(rng, ["Relu", "Sigmoid", "LeakyRelu", "HardSwish"]), [y])
        if Mo == C and chance(rng, 0.6):
            y = m.node("Add", [x, y])
        if s >= 4 and chance(rng, 0.4):
            y = m.node(pick(rng, ["MaxPool", "AveragePool"]), [y], kernel_shape=[2, 2], strides=[2, 2])
            s //= 2
        x, C = y, Mo
    if chance(rng, 0.6):
        x = m.node("GlobalAveragePool", [x])
        x = m.node("Flatten", [x], axis=1)
        N = ri(rng, 1, 4)
        x = m.node("Gemm", [x, m.const(vals(rng, f32, [N, C])), m.const(vals(rng, f32, [N]))], alpha=1.0, beta=1.0, transB=1)
        if chance(rng, 0.5):
            x = m.node("Softmax", [x], axis=1)
    m.out(x)
    return m.build(rtol=2e-3, atol=2e-3)


GENS = [(conv, 7), (conv_transpose, 4), (deform, 2), (pool, 6), (gap, 1), (norm, 5), (resize, 3), (grid, 2), (recurrent, 6), (cnn, 4), (prelu, 2)]


def _m(opset=17, k=0):
    return M(np.random.default_rng(k), opset=opset)


def p_avg_dil():
    m = _m(19)
    m.out(m.node("AveragePool", [m.inp(f32, [1, 1, 7])], kernel_shape=[2], dilations=[2]))
    return m.build()


def p_bn_eps():
    m = _m(17)
    m.out(m.node("BatchNormalization", [m.inp(f32, [2, 2, 3], -0.01, 0.01)] + [m.const(np.array(v, f32)) for v in ([1, 2], [0, 1], [0, 0], [1e-5, 2e-5])]))
    return m.build(rtol=1e-3, atol=1e-3)


def p_group18():
    m = _m(18)
    m.out(m.node("GroupNormalization", [m.inp(f32, [2, 4, 3]), m.const(vals(m.rng, f32, [2])), m.const(vals(m.rng, f32, [2]))], num_groups=2))
    return m.build()


def _rec(op, G, init, out, dire="forward"):
    m = _m(17)
    D = 2 if dire == "bidirectional" else 1
    ins = [m.inp(f32, [2, 3, 2], -1, 1)] + [m.const(vals(m.rng, f32, [D, G * 2, 2], -1, 1)) for _ in range(2)]
    if init:
        ins += ["", ""] + [m.inp(f32, [2, D, 2], -1, 1) for _ in range(2 if op == "LSTM" else 1)]
    outs = [m.name("y") if i <= out else "" for i in range(out + 1)]
    m.node(op, ins, outs=outs, hidden_size=2, layout=1, direction=dire)
    m.out(outs[out])
    return m.build(rtol=1e-3, atol=1e-3)


def p_prelu():
    m = _m()
    m.out(m.node("PRelu", [m.inp(f32, [2, 3, 3]), m.const(np.array([0.5, -1.0, 2.0], f32))]))
    return m.build()


def _resize(d, sizes=None, scales=None, **at):
    def f():
        m = _m(18)
        x = m.inp(f32, d)
        m.out(m.node("Resize", [x, "", "", m.cs(sizes)] if sizes else [x, "", m.const(np.array(scales, f32))], **at))
        return m.build(rtol=1e-3, atol=1e-3)
    return f


PINS = {"resize-nearest-rule": _resize([1, 1, 6, 6], [1, 1, 2, 2], mode="nearest"),
        "resize-linear-asymmetric": _resize([1, 1, 4, 4], [1, 1, 8, 8], mode="linear", coordinate_transformation_mode="asymmetric"),
        "resize-one": _resize([1, 1, 4, 4], [1, 1, 1, 1], mode="linear", coordinate_transformation_mode="pytorch_half_pixel"),
        "resize-cubic-coeff": _resize([1, 1, 4, 4], [1, 1, 6, 3], mode="cubic", cubic_coeff_a=-0.5),
        "resize-fraction": _resize([1, 1, 4, 5], None, [1, 1, 1.3, 1.7], mode="linear"),
        "prelu-slope-axis": p_prelu, "avgpool-dilation": p_avg_dil, "batchnorm-epsilon": p_bn_eps, "groupnorm-18": p_group18,
        "lstm-layout1-y": lambda: _rec("LSTM", 4, False, 0), "rnn-layout1-y": lambda: _rec("RNN", 1, False, 0),
        "lstm-layout1-state": lambda: _rec("LSTM", 4, False, 1, "bidirectional"), "gru-layout1-state": lambda: _rec("GRU", 3, False, 1),
        "lstm-layout1-init": lambda: _rec("LSTM", 4, True, 0, "bidirectional"), "gru-layout1-init": lambda: _rec("GRU", 3, True, 0),
        "rnn-layout1-init": lambda: _rec("RNN", 1, True, 0, "bidirectional")}
