"""C01: element-wise operators."""
import numpy as np
from ..gen import *
from .. import pb

FLOATS = [f32, f32, f32, f64, f16]
NP = np

UNARY = {
    "Abs": (-3, 3), "Acos": (-1, 1), "Acosh": (1, 4), "Asin": (-1, 1), "Asinh": (-3, 3), "Atan": (-3, 3), "Atanh": (-0.9, 0.9), "Cos": (-4, 4),
    "Cosh": (-3, 3), "Sin": (-4, 4), "Sinh": (-3, 3), "Tan": (-1.3, 1.3), "Tanh": (-4, 4), "Exp": (-4, 4), "Log": (0.05, 5), "Sqrt": (0, 5),
    "Erf": (-3, 3), "Reciprocal": (0.3, 4), "Sigmoid": (-6, 6), "Softplus": (-6, 6), "Softsign": (-4, 4), "HardSwish": (-5, 5), "Mish": (-5, 5),
    "Ceil": (-5, 5), "Floor": (-5, 5), "Round": (-5, 5), "Neg": (-5, 5), "Sign": (-2, 2), "Relu": (-3, 3), "Identity": (-3, 3),
    "LeakyRelu": (-3, 3), "ThresholdedRelu": (-3, 3), "Elu": (-3, 3), "Celu": (-3, 3), "Selu": (-3, 3), "HardSigmoid": (-6, 6), "Gelu": (-3, 3), "Swish": (-4, 4),
}
MINOP = {"Mish": 18, "Gelu": 20, "Swish": 24, "HardSwish": 14}


def sh_in(rng, m, lo=1, hi=4):
    return symbolic(rng, m, rshape(rng, lo, hi))


def unary_op(rng, m, op):
    lo, hi = UNARY[op]
    dt = pick(rng, FLOATS)
    step = None
    if op in ("Abs", "Neg", "Sign", "Identity") and chance(rng, 0.4):  # known: Relu of integers
        dt = pick(rng, [i32, i64])
    if op == "Round":
        step = pick(rng, [0.5, 0.25])
    if op == "Sign":
        step = 0.5
    at = {}
    if op in ("LeakyRelu", "Elu", "Celu", "ThresholdedRelu") and chance(rng, 0.8):
        at["alpha"] = float(f32(rng.uniform(0.1, 2)))
    if op == "Selu" and chance(rng, 0.5):
        at.update(alpha=float(f32(1.67326319217681884765625)), gamma=float(f32(1.05070102214813232421875)))  # others are refused
    if op == "HardSigmoid" and chance(rng, 0.7):
        at.update({k: v for k, v in dict(alpha=float(rng.uniform(0.1, 0.6)), beta=float(rng.uniform(0.1, 0.9))).items() if chance(rng, 0.7)})
    if op == "Swish" and chance(rng, 0.7):
        at["alpha"] = float(rng.uniform(0.3, 2))
    if op == "Gelu" and chance(rng, 0.6):
        at["approximate"] = "none"  # known: tanh
    if chance(rng, 0.15) and op not in ("Sign", "Round"):  # a number: a graph input (operators that only tensors have: known) or a reduced tensor
        if op in NATIVE and dt != f16 and chance(rng, 0.5):
            x = m.inp(dt, [], lo, hi)
        else:
            x = m.node("ReduceMax", [m.inp(dt, [3], lo, hi)], keepdims=0) if m.opset < 18 or chance(rng, 0.5) else m.node("ReduceMin", [m.inp(dt, [2, 2], lo, hi)], keepdims=0)
    else:
        x = m.inp(dt, sh_in(rng, m), lo, hi, step)
    return m.node(op, [x], **at)


# what the generated code can do with plain numbers
NATIVE = "Abs Acos Acosh Asin Asinh Atan Atanh Cos Cosh Sin Sinh Tan Tanh Exp Sqrt Reciprocal Ceil Floor Neg Identity".split()


def unary(rng):
    """Several unrelated unary operators side by side."""
    m = M(rng)
    ops = [pick(rng, list(UNARY)) for _ in range(int(rng.integers(2, 7)))]
    m.opset = max([m.opset] + [MINOP.get(o, 0) for o in ops])
    for op in ops:
        m.out(unary_op(rng, m, op))
    return m.build()


def operand(rng, m, kind, dt, full, lo, hi, cond=False):
    """An operand of the given kind: native scalar, graph scalar, reduced scalar tensor, constant, or a tensor of smaller rank."""
    if kind == "N":  # a number read from a run-time shape
        n = int(rng.integers(1, 4))
        g = m.node("Gather", [m.node("Shape", [m.inp(f32, [n, int(rng.integers(1, 4))])]), m.const(np.array(0, i64))], axis=0)
        if dt == b1:
            return m.node(pick(rng, ["Greater", "Less", "Equal"]), [g, m.const(np.array(2, i64))])
        return g if dt == i64 else m.node("Cast", [g], to=pb.NP2PB[np.dtype(dt)])
    if kind == "G":
        return m.inp(dt, [], lo, hi)
    if kind == "R":
        if dt == b1:
            return m.node("Greater", [m.node("ReduceMax", [m.inp(f32, [3], -3, 3)], keepdims=0), m.const(np.array(0.5, f32))])
        return m.node("ReduceMax", [m.inp(dt, [3], lo, hi)], keepdims=0)
    if kind == "C":
        return m.const(vals(rng, dt, (), lo, hi))
    sh = full[len(full) - int(kind[1:]):]
    if chance(rng, 0.3):
        sh = [1 if chance(rng, 0.4) else d for d in sh]
    if chance(rng, 0.25):
        return m.const(vals(rng, dt, tuple(sh), lo, hi))
    return m.inp(dt, sh, lo, hi)


def kinds(rng):
    """Binary operators over every pair of operand kinds (native and tensor scalars, constants, tensors of different rank)."""
    m = M(rng)
    m.opset = max(m.opset, 18)
    r = int(rng.integers(1, 5))
    full = [int(rng.integers(1, 5)) for _ in range(r)]
    for _ in range(int(rng.integers(1, 4))):
        op = pick(rng, ["Add", "Sub", "Mul", "Div", "Mod", "Pow", "Equal", "Greater", "Less", "GreaterOrEqual", "LessOrEqual", "And", "Or", "Xor",
                        "BitwiseAnd", "BitwiseOr", "BitwiseXor", "BitShift"])
        if op in ("And", "Or", "Xor"):
            dt = b1
        elif op.startswith("Bitwise") or op == "BitShift":
            dt = pick(rng, [i64, i32])
        else:
            dt = pick(rng, [f32, i64, i32, f64] + ([b1] if op == "Equal" else []))
        pos = op in ("Div", "Mod", "Pow", "BitShift")
        lo, hi = (1, 4) if pos else (-3, 3)
        ks = ["N", "G", "R", "C"] + ["T%d" % i for i in range(1, r + 1)] * (2 if r < 3 else 1)
        a, b = pick(rng, ks), pick(rng, ks)
        if a in "C" and b in "C":
            a = "T%d" % r
        at = {}
        if op == "BitShift":
            at["direction"] = pick(rng, ["LEFT", "RIGHT"])
        if op == "Mod" and np.dtype(dt).kind == "f":
            at["fmod"] = 1
        m.out(m.node(op, [operand(rng, m, a, dt, full, lo, hi), operand(rng, m, b, dt, full, lo, hi)], **at))
    return m.build(rtol=1e-3)


def bshape(rng, full):
    """A shape that broadcasts to `full`: a suffix with some dims replaced by 1."""
    k = int(rng.integers(0, len(full) + 1)) if chance(rng, 0.5) else 0
    return [1 if chance(rng, 0.25) else d for d in full[k:]]


def operands(rng, m, n, dts, lo=-3, hi=3, step=None, allow_const=True, allow_scalar=True, sym=True, minrank=1):
    """n operands broadcasting together; at least one runtime tensor. dts: dtype per operand."""
    full = rshape(rng, 1, 4)
    names, anyrt = [], False
    use_sym = sym and chance(rng, 0.3)
    full_s = [(m.name("n") if chance(rng, 0.4) else d) for d in full] if use_sym else full
    for i in range(n):
        s = bshape(rng, full_s) if i else (list(full_s) if chance(rng, 0.7) else bshape(rng, full_s))
        r = rng.random()
        if i == n - 1 and not anyrt:
            r = 1.0
        concrete = all(isinstance(d, int) for d in s)
        if not s:
            if not allow_scalar:
                s = [1]
            elif r >= 0.25 and chance(rng, 0.5):
                s = [1]
        if r < 0.25 and allow_const and concrete and (i or n > 1):
            names.append(m.const(vals(rng, dts[i], tuple(s), lo, hi, step)))
        else:
            names.append(m.inp(dts[i], s, lo, hi, step))
            anyrt = True
    rng2 = rng.permutation(n) if len(set(map(str, dts))) == 1 else range(n)
    return [names[j] for j in rng2]


def arith(rng):
    m = M(rng)
    op = pick(rng, ["Add", "Sub", "Mul", "Div", "Add", "Sub", "Mul", "Div", "Pow"])
    dt = pick(rng, FLOATS + [i32, i64, i64])
    if op == "Pow":
        dt = pick(rng, [f32, f32, f64])
        full = rshape(rng, 1, 3)
        x = m.inp(dt, full, 0.2, 3)
        r = rng.random()
        if r < 0.4:
            y = m.const(np.asarray(pick(rng, [2.0, 3.0, 0.5, -1.0, 1.5, 0.0, 1.0]), dt))
        elif r < 0.6:
            y = m.const(vals(rng, dt, tuple(bshape(rng, full) or [1]), -2, 2))
        else:
            y = m.inp(dt, bshape(rng, full) or [1], -2, 2)
        m.out(m.node("Pow", [x, y]))
        return m.build(rtol=1e-3)
    isint = np.dtype(dt).kind == "i"
    if op == "Div":
        if isint:
            a = operands(rng, m, 1, [dt], -20, 20)[0]
            # separate draw for the divisor: no zeros
            sh = m.ins[-1][2]
            y = bshape(rng, sh) or [1]
            if chance(rng, 0.4) and all(isinstance(d, int) for d in y):
                b = m.const(np.where((v := vals(rng, dt, tuple(y), -5, 5)) == 0, 3, v).astype(dt))
            else:
                b = m.inp(dt, y, fn=lambda r, s, k: np.where((v := vals(r, dt, s, -5, 5)) == 0, 3, v))
            m.out(m.node("Div", [a, b]))
            return m.build()
        xs = operands(rng, m, 2, [dt] * 2, 0.5, 4)
    else:
        xs = operands(rng, m, 2, [dt] * 2, -4, 4)
    m.out(m.node(op, xs))
    return m.build(rtol=5e-4)


def same_operand(rng):
    m = M(rng)
    dt = pick(rng, [f32, i64])
    x = m.inp(dt, sh_in(rng, m), 1, 4)
    m.out(m.node(pick(rng, ["Add", "Sub", "Mul", "Div", "Max", "Min"]), [x, x]))
    return m.build()


def mod(rng):
    m = M(rng)
    fm = int(rng.integers(0, 2))
    dt = pick(rng, [f32, f64]) if fm else pick(rng, [i64, i32])  # known: fmod of integers
    full = rshape(rng, 1, 3)
    nz = lambda r, s: np.where(np.abs(v := vals(r, dt, s, -5, 5)) < 0.5, 3, v).astype(dt)
    if chance(rng, 0.3):  # numbers
        full = []
    sh = (bshape(rng, full) or [1]) if full else []
    x = m.inp(dt, full, -9, 9)
    if not full and chance(rng, 0.3):
        x = m.node("ReduceMin", [m.inp(dt, [3], -9, 9)], keepdims=0)
    y = m.const(nz(rng, tuple(sh))) if chance(rng, 0.5) else m.inp(dt, sh, fn=lambda r, s, k: nz(r, s))
    if chance(rng, 0.2) and full:
        x, y = (m.inp(dt, [], -9, 9) if chance(rng, 0.5) else m.node("ReduceMax", [m.inp(dt, [2], -9, 9)], keepdims=0)), m.inp(dt, full, fn=lambda r, s, k: nz(r, s))
    m.out(m.node("Mod", [x, y], fmod=fm if fm or chance(rng, 0.5) else None))
    return m.build()


def compare(rng):
    m = M(rng)
    op = pick(rng, ["Equal", "Greater", "Less", "GreaterOrEqual", "LessOrEqual"])
    dt = pick(rng, [f32, f32, f64, i32, i64, i64] + ([b1] if op == "Equal" else []))
    xs = operands(rng, m, 2, [dt] * 2, -2, 2, step=1.0)
    m.out(m.node(op, xs))
    return m.build()


def logic(rng):
    m = M(rng)
    op = pick(rng, ["And", "Or", "Xor", "Not"])
    if op == "Not":
        m.out(m.node("Not", [m.inp(b1, sh_in(rng, m))]))
    else:
        m.out(m.node(op, operands(rng, m, 2, [b1, b1], allow_const=chance(rng, 0.5))))
    return m.build()


def bitwise(rng):
    m = M(rng)
    m.opset = max(m.opset, 18)
    op = pick(rng, ["BitwiseAnd", "BitwiseOr", "BitwiseXor", "BitwiseNot", "BitShift"])
    dt = pick(rng, [i32, i64])
    if op == "BitwiseNot":
        m.out(m.node(op, [m.inp(dt, sh_in(rng, m), -100, 100)]))
    elif op == "BitShift":
        dt = pick(rng, [u8, u16, u32, u64])
        full = rshape(rng, 1, 3)
        x = m.inp(dt, full, 0, 200)
        s = full if chance(rng, 0.4) else (bshape(rng, full) or [1])
        y = m.const(vals(rng, dt, tuple(s), 0, 7)) if chance(rng, 0.5) else m.inp(dt, s, 0, 7)
        m.out(m.node("BitShift", [x, y], direction=pick(rng, ["LEFT", "RIGHT"])))
    else:
        m.out(m.node(op, operands(rng, m, 2, [dt, dt], -100, 100)))
    return m.build()


def variadic(rng):
    m = M(rng)
    op = pick(rng, ["Max", "Min", "Sum", "Mean"])
    n = int(rng.integers(1, 5))
    dt = pick(rng, [f32, f32, f64])
    if op in ("Max", "Min"):
        n = 2
        dt = pick(rng, [f32, f64, i64, i32])
    m.out(m.node(op, operands(rng, m, n, [dt] * n, allow_scalar=False)))
    return m.build()


def clip(rng):
    m = M(rng)
    dt = pick(rng, [f32, f32, f64, i64, i32])
    x = m.inp(dt, sh_in(rng, m), -5, 5)
    lo, hi = sorted(vals(rng, dt, (2,), -4, 4).tolist())
    r = rng.random()
    ins = [x]  # (a Clip with neither bound is refused explicitly)
    if r < 0.35:
        ins += [m.const(np.asarray(lo, dt))]
    elif r < 0.55:
        ins += ["", m.const(np.asarray(hi, dt))]
    else:
        ins += [m.const(np.asarray(lo, dt)), m.const(np.asarray(hi, dt))]
    m.out(m.node("Clip", ins))
    return m.build()


def where(rng):
    m = M(rng)
    dt = pick(rng, [f32, f32, f64, i64, i32, b1])
    full = rshape(rng, 1, 4)
    sh = [bshape(rng, full) or [1] for _ in range(3)]
    sh[int(rng.integers(0, 3))] = full
    c = m.inp(b1, sh[0])
    a = m.const(vals(rng, dt, tuple(sh[1]))) if chance(rng, 0.25) else m.inp(dt, sh[1])
    b = m.const(vals(rng, dt, tuple(sh[2] if chance(rng, 0.5) else []))) if chance(rng, 0.4) and sh[2] != full else m.inp(dt, sh[2])
    m.out(m.node("Where", [c, a, b]))
    return m.build()


def where_kinds(rng):
    """Where over every combination of operand kinds."""
    m = M(rng)
    dt = pick(rng, [f32, i64, f64, i32])
    full = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
    ks = ["N", "G", "R"] + ["T%d" % i for i in range(1, len(full) + 1)] * 2
    c = operand(rng, m, pick(rng, [k for k in ks if k != "R"]), b1, full, 0, 1)
    m.out(m.node("Where", [c, operand(rng, m, pick(rng, ks + ["C"]), dt, full, -3, 3), operand(rng, m, pick(rng, ks + ["C"]), dt, full, -3, 3)]))
    return m.build()


def castop(rng):
    m = M(rng)
    types = [f32, f64, f16, i64, i32, b1, i8, u8, i16, u16, u32]
    a, b = pick(rng, types), pick(rng, types)
    fl = np.dtype(a).kind == "f"
    unsigned = np.dtype(b).kind == "u" or np.dtype(a).kind == "u"
    x = m.inp(a, sh_in(rng, m), 0 if unsigned else -3, 3, 0.5 if fl else None)
    m.out(m.node("Cast", [x], to=pb.NP2PB[np.dtype(b)]))
    return m.build()


def isnaninf(rng):
    m = M(rng)
    m.opset = max(m.opset, 20) if chance(rng, 0.5) else m.opset
    dt = pick(rng, [f32, f64])

    def f(r, s, k):
        return r.choice([0.0, 1.5, -2.0, np.inf, -np.inf, np.nan], size=s)
    r = rng.random()
    if r < 0.2:  # a number on the device
        x = m.node(pick(rng, ["ReduceSum", "ReduceMax"]), [m.inp(dt, [1], fn=f)], keepdims=0)
    else:
        x = m.inp(dt, [] if r < 0.4 else sh_in(rng, m), fn=f)
    if chance(rng, 0.4):
        m.out(m.node("IsNaN", [x]))
    else:
        at = {}
        if chance(rng, 0.8):
            at = dict(detect_positive=int(rng.integers(0, 2)), detect_negative=int(rng.integers(0, 2)))
        m.out(m.node("IsInf", [x], **at))
    return m.build()


def special(rng):
    """Special floating-point values through ordering-sensitive operators."""
    m = M(rng)
    dt = pick(rng, [f32, f64])

    def f(r, s, k):
        return r.choice([0.0, 1.5, -2.0, 1e30, -1e30, 3.0, -0.0, 1e-30], size=s)
    op = pick(rng, ["Relu", "Abs", "Neg", "Sign", "Max", "Min", "Where", "Greater", "Less"])
    s = sh_in(rng, m)
    x = m.inp(dt, s, fn=f)
    if op in ("Relu", "Abs", "Neg", "Sign"):
        m.out(m.node(op, [x]))
    elif op == "Where":
        m.out(m.node("Where", [m.inp(b1, s), x, m.inp(dt, s, fn=f)]))
    else:
        m.out(m.node(op, [x, m.inp(dt, s, fn=f)]))
    return m.build()


def prelu_drop(rng):
    m = M(rng)
    full = rshape(rng, 2, 4)
    x = m.inp(f32, symbolic(rng, m, full[:1]) + full[1:], -3, 3)
    if chance(rng, 0.2):
        m.opset = pick(rng, [7, 9, 10, 11])
    if m.opset >= 12:  # known: without ratio
        ins, at = [x, m.const(np.asarray(rng.uniform(0, 0.9), f32))], ({"seed": 1} if chance(rng, 0.3) else {})
        ins += [m.const(np.asarray(False))] if chance(rng, 0.3) else []
    else:
        ins, at = [x], dict(ratio=float(np.float32(rng.uniform(0, 0.9))))
    if chance(rng, 0.4):
        m.out(m.node("Dropout", ins, **at))
        return m.build()
    y, k = m.node("Dropout", ins, nout=2, **at)  # nothing is dropped: the mask is set everywhere
    t = rng.integers(0, 4)
    if t == 0:
        m.out(y, k)
    elif t == 1:  # listed, not used
        m.out(m.node("Neg", [y]))
    elif t == 2 and m.opset >= 10:
        m.out(m.node("Where", [k, y, m.node("Neg", [x])]))
    elif m.opset >= 10:
        m.out(m.node("Not", [k]), *([y] if chance(rng, 0.5) else []))
    else:
        m.out(m.node("Mul", [y, k]))
    return m.build()


def chain(rng):
    """A small expression over two tensors, exercising literals and value reuse."""
    m = M(rng)
    full = rshape(rng, 1, 4)
    x, y = m.inp(f32, full, 0.5, 3), m.inp(f32, bshape(rng, full) or [1], 0.5, 3)
    pool = [x, y]
    for _ in range(int(rng.integers(2, 6))):
        op = pick(rng, ["Add", "Sub", "Mul", "Div", "Max", "Min", "Sqrt", "Abs", "Relu", "Neg", "Sigmoid", "Tanh", "c"])
        a = pick(rng, pool)
        if op in ("Sqrt",):
            pool.append(m.node("Sqrt", [m.node("Abs", [a])]))
        elif op in ("Abs", "Relu", "Neg", "Sigmoid", "Tanh"):
            pool.append(m.node(op, [a]))
        elif op == "c":
            k = m.const(np.asarray(vals(rng, f32, (), 0.5, 3)))
            pool.append(m.node(pick(rng, ["Add", "Sub", "Mul", "Div"]), [a, k] if chance(rng, 0.5) else [k, a]))
        elif op == "Div":
            d = m.node("Add", [m.node("Abs", [pick(rng, pool)]), m.const(np.asarray(1.5, f32))])
            pool.append(m.node("Div", [a, d]))
        else:
            pool.append(m.node(op, [a, pick(rng, pool)]))
    used = {i for n in m.nodes for i in n.inputs}
    outs = [p for p in pool[2:] if p not in used]
    extra = [p for p in pool[2:] if p in used and chance(rng, 0.3)]
    m.out(*(outs + extra))
    return m.build(rtol=1e-3, atol=1e-4)


GENS = [(unary, 6), (kinds, 6), (arith, 7), (same_operand, 1), (mod, 2), (compare, 3), (logic, 2), (bitwise, 3), (variadic, 2), (clip, 2), (where, 3), (where_kinds, 2), (castop, 3), (isnaninf, 1), (special, 1), (prelu_drop, 1), (chain, 3)]


def _pin(f):
    def g():
        m = M(np.random.default_rng(5), opset=20)
        f(m)
        return m.build()
    return g


def _relu(m):
    m.out(m.node("Relu", [m.inp(i32, [2, 3], -5, 5)]))


def _fmod(m):
    m.out(m.node("Mod", [m.inp(i64, [2, 3], -9, 9), m.const(np.array([2, 3, 4], i64))], fmod=1))


def _gelu(m):
    m.out(m.node("Gelu", [m.inp(f32, [2, 3])], approximate="tanh"))


def _drop(m):
    m.out(m.node("Dropout", [m.inp(f32, [2, 3])]))


PINS = {"dropout-noratio": _pin(_drop), "relu-int": _pin(_relu), "fmod-int": _pin(_fmod), "gelu-tanh": _pin(_gelu)}
