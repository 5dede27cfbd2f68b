"""C02: shape- and index-manipulating operators."""
import numpy as np
from ..gen import *
from .. import pb

DTS = [f32, f32, f32, f64, i64, i32, b1]
IMAX, IMIN = 2**63 - 1, -2**63


def data(rng, m, lo=1, hi=4, dts=DTS, sym=True, dmin=1, dmax=4):
    sh = rshape(rng, lo, hi, dmin, dmax)
    dt = pick(rng, dts)
    d = symbolic(rng, m, sh, 0.25) if sym and chance(rng, 0.4) else sh
    return m.inp(dt, d, -9, 9), list(d), dt


def conc(m, d):
    """Concrete dimension values per set."""
    return [[m.dim(x)[s] if isinstance(x, str) else x for x in d] for s in range(m.nsets)]


def ax(rng, r, neg=True):
    a = int(rng.integers(0, r))
    return a - r if neg and chance(rng, 0.4) else a


def nax(rng, a, r):
    return a - r if chance(rng, 0.35) else a


def rt1d(m, v, dt=i64):
    """A runtime 1-D tensor with fixed contents."""
    v = np.asarray(v, dt).reshape(-1)
    return m.inp(dt, [len(v)], fn=lambda r, s, k: v)


def reshape(rng):
    m = M(rng)
    x, d, dt = data(rng, m, 1, 4)
    cs = conc(m, d)
    n0 = int(np.prod(cs[0]))
    # an arbitrary factorisation that fits every set: keep prefix dims with 0 or -1 for the symbolic part
    kind = rng.random()
    if all(isinstance(v, int) for v in d):
        if kind < 0.25:
            t = [-1] if chance(rng, 0.5) else [n0]
        else:
            t, rest = [], n0
            for _ in range(int(rng.integers(1, 4))):
                ds = [k for k in range(1, rest + 1) if rest % k == 0]
                k = pick(rng, ds)
                t.append(k)
                rest //= k
            t.append(rest)
            t = [t[i] for i in rng.permutation(len(t))]
            if chance(rng, 0.25):
                t.insert(int(rng.integers(0, len(t) + 1)), 1)
            if chance(rng, 0.4):
                t[int(rng.integers(0, len(t)))] = -1
            if chance(rng, 0.3):
                for i in range(min(len(t), len(d))):
                    if t[i] == d[i]:
                        t[i] = 0
    else:
        # only one -1; static tail
        k = int(rng.integers(1, len(d) + 1))
        if chance(rng, 0.5):
            t = [0] * k + ([-1] if k < len(d) else [])
        else:
            stat = [v for v in d if isinstance(v, int)]
            t = [-1] + (stat if chance(rng, 0.5) else stat[1:])
    if len(t) > 6:
        raise Skip
    m.out(m.node("Reshape", [x, m.cs(t)], **({"allowzero": 0} if chance(rng, 0.2) else {})))
    return m.build()


def transpose(rng):
    m = M(rng)
    x, d, dt = data(rng, m, 1, 5)
    perm = [int(i) for i in rng.permutation(len(d))]
    m.out(m.node("Transpose", [x], **({"perm": perm} if chance(rng, 0.8) else {})))
    return m.build()


def flatten(rng):
    m = M(rng)
    x, d, dt = data(rng, m, 2, 5)
    at = {}
    if chance(rng, 0.85):
        a = int(rng.integers(-len(d), len(d) + 1))
        if a % len(d) == 0 and a < len(d):
            raise Skip  # known: axis 0
        at["axis"] = a
    m.out(m.node("Flatten", [x], **at))
    return m.build()


def squeeze(rng):
    m = M(rng)
    dt = pick(rng, DTS)
    r = int(rng.integers(2, 6))
    ones = sorted(int(i) for i in rng.choice(r, size=int(rng.integers(1, r)), replace=False))
    d = [1 if i in ones else int(rng.integers(2, 5)) for i in range(r)]
    if chance(rng, 0.3):
        d = [1 if i in ones else (m.name("n") if chance(rng, 0.4) else d[i]) for i in range(r)]
        for v in d:
            if isinstance(v, str):
                m.sym[v] = [int(rng.integers(2, 5)) for _ in range(m.nsets)]
    x = m.inp(dt, d, -9, 9)
    if chance(rng, 0.25) and all(isinstance(v, int) for v in d) and SQUEEZE_ALL:
        m.out(m.node("Squeeze", [x]))
    else:
        k = ones if chance(rng, 0.5) else [pick(rng, ones)]
        k = [nax(rng, a, r) for a in k]
        k = [k[i] for i in rng.permutation(len(k))]
        if m.opset < 13:
            m.out(m.node("Squeeze", [x], axes=k))
        else:
            m.out(m.node("Squeeze", [x, m.cs(k)]))
    return m.build()


SQUEEZE_ALL = True


def unsqueeze(rng):
    m = M(rng)
    x, d, dt = data(rng, m, 1, 3)
    k = int(rng.integers(1, 3))
    r = len(d) + k
    a = [nax(rng, int(i), r) for i in rng.choice(r, size=k, replace=False)]
    m.out(m.node("Unsqueeze", [x, m.cs(a)]))
    return m.build()


def old_axes(rng):
    """Opset 11/12 forms with axes/split as attributes."""
    m = M(rng, opset=int(rng.choice([11, 12])))
    op = pick(rng, ["Squeeze", "Unsqueeze", "Split"])
    if op == "Squeeze":
        r = int(rng.integers(2, 5))
        i = int(rng.integers(0, r))
        x = m.inp(f32, [1 if j == i else 3 for j in range(r)])
        m.out(m.node("Squeeze", [x], axes=[nax(rng, i, r)]))
    elif op == "Unsqueeze":
        d = rshape(rng, 1, 3)
        i = int(rng.integers(0, len(d) + 1))
        m.out(m.node("Unsqueeze", [m.inp(f32, d)], axes=[nax(rng, i, len(d) + 1)]))
    else:
        d = rshape(rng, 1, 3)
        i = int(rng.integers(0, len(d)))
        sp = [int(v) for v in rng.integers(1, 4, 2)]
        d[i] = sum(sp)
        m.out(*m.node("Split", [m.inp(f32, d)], 2, axis=nax(rng, i, len(d)), split=sp))
    return m.build()


def expand(rng):
    m = M(rng)
    full = rshape(rng, 1, 4)
    k = int(rng.integers(0, len(full)))
    d = [1 if chance(rng, 0.4) else v for v in full[k:]] or [1]
    dt = pick(rng, [f32, f32, i64, f64, b1])
    x = m.inp(dt, d, -9, 9)
    t = list(full)
    if chance(rng, 0.3):  # a target dim of 1 leaves the input dim as it is
        for i in range(len(t)):
            if chance(rng, 0.4):
                t[i] = 1
        full = list(np.broadcast_shapes(tuple(t), tuple(d)))
    if chance(rng, 0.3) and len(t) > len(d):
        pass
    m.out(m.node("Expand", [x, m.cs(t)]))
    return m.build()


def concat(rng):
    m = M(rng)
    d = rshape(rng, 1, 4)
    a = int(rng.integers(0, len(d)))
    dt = pick(rng, DTS)
    n = int(rng.integers(1, 5))
    ins = []
    for i in range(n):
        s = list(d)
        s[a] = int(rng.integers(1, 4))
        if chance(rng, 0.25) and (i < n - 1 or ins):
            ins.append(m.const(vals(rng, dt, tuple(s))))
        elif chance(rng, 0.15) and ins:
            ins.append(ins[0])
        else:
            if chance(rng, 0.25):
                s[a] = m.name("n")
            ins.append(m.inp(dt, s))
    if not m.ins:
        ins[0] = m.inp(dt, d)
    m.out(m.node("Concat", ins, axis=nax(rng, a, len(d))))
    return m.build()


def split(rng):
    m = M(rng)
    d = rshape(rng, 1, 4)
    a = int(rng.integers(0, len(d)))
    dt = pick(rng, DTS)
    r = rng.random()
    n = int(rng.integers(1, 4))
    at = {"axis": nax(rng, a, len(d))} if a or chance(rng, 0.7) else {}
    if r < 0.4:
        sp = [int(v) for v in rng.integers(1, 4, n)]
        d[a] = sum(sp)
        d = [(m.name("n") if i != a and chance(rng, 0.2) else v) for i, v in enumerate(d)]
        x = m.inp(dt, d, -9, 9)
        o = m.node("Split", [x, m.cs(sp)], n, **at)
    elif r < 0.65:
        d[a] = n * int(rng.integers(1, 4))
        x = m.inp(dt, d, -9, 9)
        if m.opset >= 18:
            at["num_outputs"] = n
        o = m.node("Split", [x], n, **at)
    else:
        m.opset = max(m.opset, 18)
        n = int(rng.integers(2, 6))
        c = int(rng.integers(2, 6))
        last = int(rng.integers(1, c + 1))
        d[a] = c * (n - 1) + last
        if -(-d[a] // n) != c:
            raise Skip
        x = m.inp(dt, d, -9, 9)
        o = m.node("Split", [x], n, num_outputs=n, **at)
    o = [o] if isinstance(o, str) else o
    sub = [v for v in o if chance(rng, 0.8)] or o
    m.out(*sub)
    return m.build()


def slice_(rng):
    m = M(rng)
    x, d, dt = data(rng, m, 1, 4, dmax=5) if chance(rng, 0.8) else data(rng, m, 5, 6, dmax=3)
    cs = conc(m, d)
    k = int(rng.integers(1, len(d) + 1))
    axes = [int(i) for i in rng.permutation(len(d))[:k]]
    noaxes = chance(rng, 0.2)
    if noaxes:
        axes = list(range(k))
    st, en, sp = [], [], []
    for a in axes:
        lo = min(c[a] for c in cs)
        s = int(rng.integers(0, lo))
        e = int(rng.integers(s + 1, lo + 1))
        step = int(pick(rng, [1, 1, 1, 2, 3]))
        if chance(rng, 0.3):
            s -= lo if isinstance(d[a], int) else 0
        if isinstance(d[a], int) and chance(rng, 0.25) and e < lo:
            e -= lo
        if chance(rng, 0.25):
            e = int(pick(rng, [IMAX, 2**31 - 1, 1000]))
        st.append(s)
        en.append(e)
        sp.append(step)
    ins = [x, m.cs(st), m.cs(en)]
    usestep = any(v != 1 for v in sp) or chance(rng, 0.3)
    if not noaxes:
        ins.append(m.cs([nax(rng, a, len(d)) for a in axes]))
    elif usestep:
        ins.append("")
    if usestep:
        ins.append(m.cs(sp))
    m.out(m.node("Slice", ins))
    return m.build()


def shp(m, dims):
    return m.node("Shape", [m.inp(f32, dims)])


def vec(m, rng, kind, v):
    """The integers v as a 1-D operand: constant, run-time tensor, shape, one number of a shape, a reduced number, or a concatenation."""
    if kind == "c":
        return m.cs(v)
    if kind == "t":
        return rt1d(m, v)
    if kind == "s":
        return shp(m, v)
    if kind == "n":
        return m.node("Unsqueeze", [m.node("Gather", [shp(m, [2, v[0]]), m.const(np.array(1, i64))], axis=0), m.cs([0])])
    if kind == "r":
        return m.node("Unsqueeze", [m.node("ReduceMax", [rt1d(m, [v[0]] * 2)], keepdims=0), m.cs([0])])
    return m.node("Concat", [m.node("Unsqueeze", [m.node("Gather", [shp(m, [v[0], 2]), m.const(np.array(0, i64))], axis=0), m.cs([0])])] + ([m.cs(v[1:])] if len(v) > 1 else []), axis=0)


def slice_rt(rng):
    """Starts and ends computed at run time, in every combination of operand kinds."""
    m = M(rng)
    m.opset = max(m.opset, 13)
    d = rshape(rng, 1, 5, 2, 5)
    dt = pick(rng, [f32, i64, b1])
    x = m.inp(dt, d, -9, 9)
    k = int(rng.integers(1, len(d) + 1))
    axes = [int(i) for i in rng.permutation(len(d))[:k]] if chance(rng, 0.7) else list(range(k))
    ks = ["c", "t", "s", "cat"] + (["n", "r"] if k == 1 else [])
    ka, kb = pick(rng, ks), pick(rng, ks)
    if ka == kb == "c":
        ka = "t"
    st, en, sp = [], [], []
    for i, a in enumerate(axes):
        s = int(rng.integers(0, d[a]))
        e = int(rng.integers(s + 1, d[a] + 1))
        step = int(pick(rng, [1, 1, 2, 3]))
        if ka in "ct" and chance(rng, 0.25):
            s -= d[a]
        if kb in "ct":
            if chance(rng, 0.25) and e < d[a]:
                e -= d[a]
            elif chance(rng, 0.2):
                e = int(pick(rng, [IMAX, 2**31 - 1, 1000]) if kb == "t" else 1000)
        st.append(s)
        en.append(e)
        sp.append(step)
    ins = [x, vec(m, rng, ka, st), vec(m, rng, kb, en)]
    if axes != list(range(k)) or chance(rng, 0.6):
        ins.append(m.cs([nax(rng, a, len(d)) for a in axes]))
    elif chance(rng, 0.5):
        ins.append("")
    if chance(rng, 0.4):
        if len(ins) < 4:
            ins.append("")
        ins.append(m.cs(sp))
    if ins[-1] == "":
        ins.pop()
    m.out(m.node("Slice", ins))
    return m.build()


def num(rng, m, kind, dt, lo=-5, hi=5):
    from .elementwise import operand
    return operand(rng, m, kind, dt, [], lo, hi)


def number_to_tensor(rng):
    """Numbers (native, graph inputs, reduced) turned into tensors by Reshape, Unsqueeze and Expand."""
    m = M(rng)
    m.opset = max(m.opset, 18)
    for _ in range(int(rng.integers(1, 4))):
        dt = pick(rng, [f32, i64, b1, f64, i32])
        x = num(rng, m, pick(rng, "NGR"), dt)
        op = pick(rng, ["Reshape", "Unsqueeze", "Expand", "Expand"])
        r = int(rng.integers(1, 4))
        if op == "Unsqueeze" and dt in (i32, f64):
            op = "Reshape"  # (known finding: an int32 number comes out of Unsqueeze as int64)
        if op == "Reshape":
            r = max(r, 2)  # (known finding of C06: a number reshaped to [1] stays a number)
            t = [1] * r
            if chance(rng, 0.4):
                t[int(rng.integers(0, r))] = -1
            y = m.node(op, [x, m.cs(t)])
        elif op == "Unsqueeze":
            axs = list(range(r))
            y = m.node(op, [x, m.cs([axs[i] for i in rng.permutation(r)] if chance(rng, 0.5) else [v - r for v in axs])])
        else:
            t = [int(v) for v in rng.integers(1, 4, r)]
            y = m.node(op, [x, vec(m, rng, pick(rng, ["c", "s", "t", "cat"]), t)])
        if chance(rng, 0.5) and op != "Expand" and dt not in (b1, i32):
            y = m.node("Concat", [y, m.inp(dt, [2] + [1] * (r - 1))][::pick(rng, [1, -1])], axis=0)
        m.out(y)
    return m.build()


def expand_kinds(rng):
    """Expand to constant, run-time and shape-valued targets, shorter and longer than the input."""
    m = M(rng)
    m.opset = max(m.opset, 13)
    full = rshape(rng, 1, 4)
    i, j = (int(v) for v in rng.integers(0, len(full), 2))
    if i and j:
        i = 0
    d = [1 if chance(rng, 0.4) else v for v in full[i:]]
    t = [v if d0 == 1 or chance(rng, 0.7) else 1 for v, d0 in zip(full[j:], ([1] * i + d)[j:])]
    m.out(m.node("Expand", [m.inp(pick(rng, [f32, i64, b1]), d, -9, 9), vec(m, rng, pick(rng, ["c", "s", "t", "cat"]), t)]))
    return m.build()


def gather_kinds(rng):
    """Gather with one index of every kind, from tensors and from shapes."""
    m = M(rng)
    m.opset = max(m.opset, 18)
    for _ in range(int(rng.integers(1, 3))):
        k = pick(rng, "NGRCS")
        r = int(rng.integers(1, 4))
        n = int(rng.integers(2, 5))
        v = int(rng.integers(0, n))
        a = int(rng.integers(0, r))
        d = rshape(rng, r, r)
        d[a] = n
        dt = pick(rng, [f32, i64, b1])
        onshape = chance(rng, 0.25)
        if k == "N":
            v = max(v, 1)
            i = m.node("Gather", [shp(m, [v, 2]), m.const(np.array(0, i64))], axis=0)
        elif k == "G":
            i = m.inp(i64 if onshape else pick(rng, [i64, i32]), [], fn=lambda r, s, k, v=v: np.asarray(v))
        elif k == "R":
            i = m.node("ReduceMax", [rt1d(m, [v, 0])], keepdims=0)
        elif k == "C":
            i = m.const(np.array(v - n if chance(rng, 0.6) else v, i64))
        else:
            i = shp(m, [max(v, 1), 1])
        if onshape:
            x, a, r = shp(m, [int(q) for q in rng.integers(1, 5, n)]), 0, 1
            if k == "S" and chance(rng, 0.5):
                i = rt1d(m, [v, 0, n - 1])
        else:
            x = m.inp(dt, d, -9, 9)
        m.out(m.node("Gather", [x, i], axis=nax(rng, a, r)))
    return m.build()


def reshape_kinds(rng):
    """Reshape with a run-time target, and of shapes."""
    m = M(rng)
    m.opset = max(m.opset, 14)
    if chance(rng, 0.4):
        r = int(rng.integers(1, 7))
        x, n, d = shp(m, [int(v) for v in rng.integers(1, 5, r)]), r, [r]
    else:
        d = rshape(rng, 1, 4)
        x, n = m.inp(pick(rng, DTS), d, -9, 9), int(np.prod(d))
    t, rest = [], n
    for _ in range(int(rng.integers(0, 3))):
        k = pick(rng, [k for k in range(1, rest + 1) if rest % k == 0])
        t.append(k)
        rest //= k
    t.append(rest)
    kind = "c" if len(d) == 1 and chance(rng, 0.7) else pick(rng, ["s", "t", "cat"])
    if kind == "c" and chance(rng, 0.4):
        t[int(rng.integers(0, len(t)))] = -1
    if kind == "cat" and len(t) > 1 and chance(rng, 0.5):
        t[int(rng.integers(1, len(t)))] = -1
    if kind == "t" and len(t) <= len(d) and chance(rng, 0.4):
        t = [0 if i < len(d) and t[i] == d[i] else v for i, v in enumerate(t)]
    m.out(m.node("Reshape", [x, vec(m, rng, kind, t)]))
    return m.build()


def split_dyn(rng):
    """Equal and uneven splits of a dimension that is only known at run time."""
    m = M(rng)
    m.opset = max(m.opset, 18)
    d = rshape(rng, 1, 3)
    a = int(rng.integers(0, len(d)))
    n = int(rng.integers(2, 5))
    ok = [v for v in range(n, 14) if -(-v // n) * (n - 1) < v]
    s = m.name("n")
    m.sym[s] = [int(pick(rng, ok)) for _ in range(m.nsets)]
    d[a] = s
    o = m.node("Split", [m.inp(pick(rng, [f32, i64, b1]), d, -9, 9)], n, num_outputs=n, axis=nax(rng, a, len(d)))
    m.out(*o)
    return m.build()


def idx(rng, shape, n, neg=True):
    v = rng.integers(0, n, shape)
    if neg and chance(rng, 0.4):
        v = np.where(rng.random(shape) < 0.4, v - n, v)
    return v


def index_in(rng, m, shape, n, neg=True):
    """neg: whether negative constants are drawn (negative run-time indices are a known finding)."""
    dt = pick(rng, [i64, i64, i32])
    cst = chance(rng, 0.4)
    v = np.asarray(idx(rng, shape, n, neg and cst)).astype(dt)
    if cst:
        return m.const(v), v
    return m.inp(dt, list(shape), fn=lambda r, s, k: v), v


def gather(rng):
    m = M(rng)
    d = rshape(rng, 1, 4, 1, 4)
    a = int(rng.integers(0, len(d)))
    ir = int(pick(rng, [0, 1, 1, 2, 3]))
    ish = tuple(int(v) for v in rng.integers(1, 4, ir))
    x = m.inp(pick(rng, DTS), d, -9, 9)
    if ir == 0:
        dt = pick(rng, [i64, i32])
        cst = chance(rng, 0.6)
        v = np.asarray(idx(rng, (), d[a], cst and len(d) > 1)).astype(dt)
        i = m.const(v) if cst else m.inp(dt, [], fn=lambda r, s, k: v)
        if len(d) == 1 and not GATHER0:
            raise Skip
    else:
        i, _ = index_in(rng, m, ish, d[a], False)
    at = {"axis": nax(rng, a, len(d))} if a or chance(rng, 0.6) else {}
    m.out(m.node("Gather", [x, i], **at))
    return m.build()


GATHER0 = True


def gather_elements(rng):
    m = M(rng)
    d = rshape(rng, 1, 4, 1, 4)
    a = int(rng.integers(0, len(d)))
    ish = tuple(int(rng.integers(1, v + 1)) for v in d) if chance(rng, 0.5) else tuple(d)
    ish = tuple(int(rng.integers(1, 5)) if i == a else v for i, v in enumerate(ish))
    x = m.inp(pick(rng, DTS), d, -9, 9)
    i, _ = index_in(rng, m, ish, d[a], False)
    at = {"axis": nax(rng, a, len(d))} if a or chance(rng, 0.6) else {}
    m.out(m.node("GatherElements", [x, i], **at))
    return m.build()


def ndix(rng, m, d, nb=0):
    k = int(rng.integers(1, len(d) - nb + 1))
    pre = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 3))))
    sh = tuple(d[:nb]) + pre
    cols = [idx(rng, sh, d[nb + j]) for j in range(k)]
    return np.stack(cols, -1).astype(i64), k


def gathernd(rng):
    m = M(rng)
    d = rshape(rng, 1, 4, 1, 4)
    nb = int(rng.integers(0, len(d))) if chance(rng, 0.35) else 0
    v, k = ndix(rng, m, d, nb)
    x = m.inp(pick(rng, [f32, f32, f64, i64, i32, b1]), d, -9, 9)
    i = m.const(v) if chance(rng, 0.4) else m.inp(i64, list(v.shape), fn=lambda r, s, kk: v)
    m.out(m.node("GatherND", [x, i], **({"batch_dims": nb} if nb or chance(rng, 0.3) else {})))
    return m.build()


def scatternd(rng):
    m = M(rng)
    m.opset = max(m.opset, 18)
    d = rshape(rng, 1, 4, 1, 4)
    k = int(rng.integers(1, len(d) + 1))
    tot = int(np.prod(d[:k]))
    red = pick(rng, ["none", None] if M is HardM else ["none", "none", None, "add", "mul", "max", "min"])
    dup = red not in ("none", None) and chance(rng, 0.4)
    n = int(rng.integers(1, tot + 1))
    flat = rng.integers(0, tot, n) if dup else rng.permutation(tot)[:n]
    v = np.stack(np.unravel_index(flat, d[:k]), -1).astype(i64)
    if chance(rng, 0.3):
        v = np.where(rng.random(v.shape) < 0.4, v - np.array(d[:k]), v)
    if chance(rng, 0.3) and n % 2 == 0:
        v = v.reshape(2, n // 2, k)
    dt = pick(rng, [f32, f32, f64, i64])
    x = m.inp(dt, d, -4, 4)
    i = m.const(v) if chance(rng, 0.4) else m.inp(i64, list(v.shape), fn=lambda r, s, kk: v)
    u = m.inp(dt, list(v.shape[:-1]) + d[k:], -4, 4)
    m.out(m.node("ScatterND", [x, i, u], **({"reduction": red} if red else {})))
    return m.build()


def scatter_elements(rng):
    m = M(rng)
    m.opset = max(m.opset, 18)
    d = rshape(rng, 1, 4, 1, 4)
    a = int(rng.integers(0, len(d)))
    red = pick(rng, ["none", None] if M is HardM else ["none", "none", None, "add", "mul", "max", "min"])
    ish = tuple(int(rng.integers(1, v + 1)) for v in d)
    if red in ("none", None):
        lead = np.moveaxis(np.empty(ish), a, -1).shape
        v = np.stack([rng.permutation(d[a])[:lead[-1]] for _ in range(int(np.prod(lead[:-1], dtype=int)))]).reshape(lead)
        v = np.moveaxis(v, -1, a)
    else:
        v = rng.integers(0, d[a], ish)
    v = np.ascontiguousarray(v).astype(i64)
    dt = pick(rng, [f32, f32, f64, i64])
    x = m.inp(dt, d, -4, 4)
    i = m.const(v) if chance(rng, 0.4) else m.inp(i64, list(v.shape), fn=lambda r, s, kk: v)
    u = m.inp(dt, list(ish), -4, 4)
    at = {"axis": nax(rng, a, len(d))} if a or chance(rng, 0.6) else {}
    if red:
        at["reduction"] = red
    m.out(m.node("ScatterElements", [x, i, u], **at))
    return m.build()


def pad(rng):
    m = M(rng)
    mode = pick(rng, ["constant", "constant", None, "reflect", "edge"])
    lo = 1
    d = rshape(rng, lo, 4, 2 if mode == "reflect" else 1, 4)
    r = len(d)
    dt = pick(rng, [f32, f32, f64, i64, i32])
    beg, end = [0] * r, [0] * r
    for a in range(r):
        if chance(rng, 0.6):
            mx = d[a] - 1 if mode == "reflect" else 3
            beg[a], end[a] = (int(v) for v in rng.integers(0, mx + 1, 2))
    x = m.inp(dt, symbolic(rng, m, d, 0.3) if mode != "reflect" and chance(rng, 0.3) and min(beg) >= 0 else d, -5, 5)
    ins = [x]
    at = {"mode": mode} if mode else {}
    use_axes = False  # (refused explicitly, like negative pads)
    val = None
    if mode in ("constant", None) and chance(rng, 0.6):
        v = vals(rng, dt, (), -3, 3)
        if dt in (f32, f64) and chance(rng, 0.5):
            v = pick(rng, [1e-7, -3.14159274, 1.23456788, -1e-30, 3e38, 16777215.0, 0.1, -np.inf, np.inf])
        elif dt in (i64, i32) and chance(rng, 0.3):
            v = pick(rng, [-2**31, 16777216, 100003])  # (known finding: the value goes through float32)
        val = m.const(np.asarray(v, dt))
        if chance(rng, 0.35):  # computed at run time
            v = np.asarray(vals(rng, dt, (), -3, 3))
            val = m.inp(dt, [], fn=lambda *_: v) if chance(rng, 0.5) else m.node("ReduceMax", [m.inp(dt, [2], fn=lambda *_: np.array([v, v]))], keepdims=0)
    if use_axes:
        axes = [a for a in range(r) if beg[a] or end[a]] or [0]
        axes = [axes[i] for i in rng.permutation(len(axes))]
        ins += [m.cs([beg[a] for a in axes] + [end[a] for a in axes]), val or "", m.cs([nax(rng, a, r) for a in axes])]
    else:
        ins.append(m.cs(beg + end))
        if val:
            ins.append(val)
    m.out(m.node("Pad", ins, **at))
    return m.build()


PADNEG = True


def tile(rng):
    m = M(rng)
    x, d, dt = data(rng, m, 1, 4)
    m.out(m.node("Tile", [x, m.cs([int(v) for v in rng.integers(1, 4, len(d))])]))
    return m.build()


def depth(rng):
    m = M(rng)
    b = int(rng.integers(1, 4))
    dt = pick(rng, [f32, f32, f64, i64])
    if chance(rng, 0.5):
        x = m.inp(dt, [int(rng.integers(1, 3)), b * b * int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 4))], -9, 9)
        m.out(m.node("DepthToSpace", [x], blocksize=b, **({"mode": pick(rng, ["DCR", "CRD"])} if chance(rng, 0.7) else {})))
    else:
        x = m.inp(dt, [int(rng.integers(1, 3)), int(rng.integers(1, 4)), b * int(rng.integers(1, 4)), b * int(rng.integers(1, 4))], -9, 9)
        m.out(m.node("SpaceToDepth", [x], blocksize=b))
    return m.build()


def onehot(rng):
    m = M(rng)
    d = rshape(rng, 1, 3, 1, 4)
    n = int(rng.integers(2, 6))
    v = idx(rng, tuple(d), n, True).astype(i64)
    x = m.inp(i64, d, fn=lambda r, s, k: v)
    dt = pick(rng, [f32, f32, i64])
    dep = m.const(np.asarray(n, i64) if chance(rng, 0.6) else np.array([n], i64))
    vl = m.const(vals(rng, dt, (2,), -5, 5, 1.0) if chance(rng, 0.5) else np.array([0, 1], dt))  # known: fractional values
    at = {"axis": int(rng.integers(-len(d) - 1, len(d) + 1))} if chance(rng, 0.7) else {}
    m.out(m.node("OneHot", [x, dep, vl], **at))
    return m.build()


def trilu(rng):
    m = M(rng)
    x, d, dt = data(rng, m, 2, 4, [f32, f32, f64, i64, i32])
    ins = [x]
    if chance(rng, 0.6):
        ins.append(m.const(np.asarray(int(rng.integers(-3, 4)), i64)))
    m.out(m.node("Trilu", ins, **({"upper": int(rng.integers(0, 2))} if chance(rng, 0.8) else {})))
    return m.build()


def eyelike(rng):
    m = M(rng)
    x, d, dt = data(rng, m, 2, 2, [f32, f64, i64, i32])
    at = {}
    if chance(rng, 0.6):
        at["k"] = int(rng.integers(-3, 4))
    if chance(rng, 0.5):
        at["dtype"] = pb.NP2PB[np.dtype(pick(rng, [f32, f64, i64, i32]))]
    m.out(m.node("EyeLike", [x], **at))
    return m.build()


def nonzero(rng):
    m = M(rng)
    m.out_hide = True
    d = rshape(rng, 1, 3, 1, 4)
    dt = pick(rng, [f32, i64, i32, b1])
    x = m.inp(dt, d, -1, 1, step=1.0)
    m.out(m.node("NonZero", [x]))
    return m.build()


def cos(rng):
    m = M(rng)
    d = rshape(rng, 2, 4)  # (rank 1 int64 is held as a shape: C06)
    dt = pick(rng, [f32, f64, i64, i32, b1, None])
    at = {} if dt is None else {"value": pb.Tensor("", vals(rng, dt, (1,), -5, 5))}
    y = m.node("ConstantOfShape", [m.cs(d)], **at)
    x = m.inp(dt or f32, d)
    m.out(m.node("Concat", [y, x], axis=0))
    return m.build()


def col2im(rng):
    m = M(rng)
    m.opset = max(m.opset, 18)
    nd = 2
    k = [int(v) for v in rng.integers(1, 4, nd)]
    st = [int(v) for v in rng.integers(1, 3, nd)]
    dil = [int(v) for v in rng.integers(1, 3, nd)]
    pads = [int(v) for v in rng.integers(0, 2, 2 * nd)] if chance(rng, 0.5) else [0] * (2 * nd)
    im = [int(rng.integers((k[i] - 1) * dil[i] + 1, (k[i] - 1) * dil[i] + 5)) for i in range(nd)]
    L = 1
    for i in range(nd):
        L *= (im[i] + pads[i] + pads[nd + i] - dil[i] * (k[i] - 1) - 1) // st[i] + 1
    N, C = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    x = m.inp(f32, [N, C * int(np.prod(k)), L])
    at = {}
    if any(v != 1 for v in st) or chance(rng, 0.3):
        at["strides"] = st
    if any(v != 1 for v in dil) or chance(rng, 0.3):
        at["dilations"] = dil
    if any(pads) or chance(rng, 0.3):
        at["pads"] = pads
    m.out(m.node("Col2Im", [x, m.cs(im), m.cs(k)], **at))
    return m.build()


def range_(rng):
    m = M(rng)
    m.out_hide = True
    dt = i64  # known: other types, negative steps
    s = int(rng.integers(-4, 5))
    n = int(rng.integers(1, 6))
    step = int(pick(rng, [1, 1, 2, 3]))
    l = s + step * n - (0 if chance(rng, 0.5) or step == 1 else 1)
    sc = lambda v: m.const(np.asarray(v, dt)) if chance(rng, 0.6) else m.inp(dt, [], fn=lambda r, sh, k: np.asarray(v))
    a = [sc(s), sc(l), sc(step)]
    y = m.node("Range", a)
    m.out(m.node("Add", [y, m.inp(dt, [1])]))
    return m.build()


HARDF = [np.inf, -np.inf, np.nan, -0.0, 0.0, 3e38, -3e38, 1e30, 1e-30, 1e-44, 16777217.0, 1.0, -1.0, 0.1]
HARDI = {4: [2**31 - 1, -2**31, 0, -1, 16777217, 1], 8: [2**63 - 1, -2**63, 2**53 + 1, -2**53 - 1, 0, -1, 2**31]}


def harden(rng, v):
    """Replaces elements by values that arithmetic does not keep."""
    v = np.array(v)
    if v.dtype.kind == "f":
        h = np.array(HARDF, v.dtype)
    elif v.dtype.kind == "i":
        h = np.array(HARDI[v.dtype.itemsize], v.dtype)
    else:
        return v
    return np.where(rng.random(v.shape) < 0.6, h[rng.integers(0, len(h), v.shape)], v).astype(v.dtype)


class HardM(M):
    """Runtime data that an operator only moves may be anything."""
    def inp(self, dt, shape, *a, fn=None, **k):
        if fn is None:
            fn = lambda r, sh, s: harden(r, vals(r, dt, sh, *a))
        return super().inp(dt, shape, *a, fn=fn, **k)


def hard(f):
    def g(rng):
        global M
        keep, M = M, HardM
        try:
            return f(rng)
        finally:
            M = keep
    g.__name__ = "hard_" + f.__name__
    return g


def _pin(f):
    def g():
        m = M(np.random.default_rng(5), opset=20)
        f(m)
        return m.build()
    return g


def fixed(m, v):
    v = np.asarray(v)
    return m.inp(v.dtype, list(v.shape), fn=lambda r, s, k: v)


PINS = {
    "gather-neg-runtime": _pin(lambda m: m.out(m.node("Gather", [m.inp(f32, [4, 2]), fixed(m, np.array([-1, 0], i64))]))),
    "gatherelements-neg": _pin(lambda m: m.out(m.node("GatherElements", [m.inp(f32, [3, 2]), m.const(np.array([[-1, 0]], i64))]))),
    "scatterelements-neg": _pin(lambda m: m.out(m.node("ScatterElements", [m.inp(f32, [3, 2]), m.const(np.array([[-1, 0]], i64)), m.inp(f32, [1, 2])]))),
    "scatterelements-inexact": _pin(lambda m: m.out(m.node("ScatterElements", [fixed(m, np.array([np.inf, 3e38, 1e-30], f32)), m.const(np.array([0, 1, 2], i64)), fixed(m, np.array([1.5, 2.5, 3.5], f32))]))),
    "onehot-frac": _pin(lambda m: m.out(m.node("OneHot", [fixed(m, np.array([1, 0], i64)), m.const(np.asarray(3, i64)), m.const(np.array([0.25, 0.75], f32))]))),
    "flatten-axis0": _pin(lambda m: m.out(m.node("Flatten", [m.inp(f32, [2, 3])], axis=0))),
    "reshape-runtime-minus1": _pin(lambda m: m.out(m.node("Reshape", [m.inp(f32, [2, 6]), fixed(m, np.array([-1, 4], i64))]))),
    "gather-shape-int32": _pin(lambda m: m.out(m.node("Gather", [shp(m, [2, 3]), m.inp(i32, [], fn=lambda r, s, k: np.asarray(1))], axis=0))),
    "pad-inexact": _pin(lambda m: m.out(m.node("Pad", [m.inp(i64, [2]), m.cs([0, 1]), m.const(np.array(16777217, i64))]))),
    "slice-negative-step": _pin(lambda m: m.out(m.node("Slice", [m.inp(f32, [4]), m.cs([-1]), m.cs([-2**31]), m.cs([0]), m.cs([-1])]))),
    "range-float": _pin(lambda m: m.out(m.node("Add", [m.node("Range", [m.const(np.asarray(v, f32)) for v in (0.5, 3.0, 0.5)]), m.inp(f32, [1])]))),
    "range-int32": _pin(lambda m: m.out(m.node("Add", [m.node("Range", [m.const(np.asarray(v, i32)) for v in (0, 3, 1)]), m.inp(i32, [1])]))),
    "range-negative": _pin(lambda m: m.out(m.node("Add", [m.node("Range", [m.const(np.asarray(v, i64)) for v in (5, 0, -1)]), m.inp(i64, [1])]))),
}

GENS = [(reshape, 5), (transpose, 2), (flatten, 2), (squeeze, 2), (unsqueeze, 2), (old_axes, 1), (expand, 2), (concat, 3), (split, 4), (slice_, 5), (slice_rt, 4), (number_to_tensor, 2), (expand_kinds, 2), (gather_kinds, 2), (reshape_kinds, 2), (split_dyn, 1), (gather, 5), (gather_elements, 2),
        (gathernd, 3), (scatternd, 3), (scatter_elements, 3), (pad, 4), (tile, 1), (depth, 2), (onehot, 2), (trilu, 2), (eyelike, 1), (nonzero, 1), (cos, 1), (col2im, 2), (range_, 2)]
GENS += [(hard(f), w) for f, w in [(reshape, 1), (transpose, 1), (squeeze, 1), (expand, 2), (concat, 1), (split, 1), (slice_, 1), (gather, 1), (gather_elements, 1), (gathernd, 1), (scatternd, 2), (pad, 2), (tile, 1), (depth, 1), (trilu, 2), (cos, 1)]]
