"""Case builder shared by the generators."""
import numpy as np
from . import pb, ref
from .e2e import Case

f32, f64, f16, i64, i32, i16, i8, u8, u16, u32, u64 = np.float32, np.float64, np.float16, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.uint64
b1 = np.bool_


class Skip(Exception):
    """The drawn combination is outside the generator's domain."""


def vals(rng, dt, shape, lo=-3.0, hi=3.0, step=None):
    dt = np.dtype(dt)
    if dt.kind == "b":
        return np.asarray(rng.integers(0, 2, shape)).astype(bool)
    if dt.kind == "f":
        v = rng.uniform(lo, hi, shape)
        if step:
            v = np.round(v / step) * step
        return np.asarray(v).astype(dt)
    lo_, hi_ = int(np.ceil(lo)), int(np.floor(hi))
    if dt.kind == "u":
        lo_ = max(lo_, 0)
    return np.asarray(rng.integers(lo_, hi_ + 1, shape)).astype(dt)


OPSETS = [[16, 17, 18, 19, 20, 21]]  # the last entry applies


class M:
    """Builds one model. Symbolic dimensions are strings in input shapes; `sym` maps them to one value per set."""

    def __init__(self, rng, opset=None, nsets=2):
        self.rng, self.nsets = rng, nsets
        self.opset = opset if opset is not None else int(rng.choice(OPSETS[-1]))
        self.nodes, self.inits, self.ins, self.outs, self.k = [], [], [], [], 0
        self.sym = {}
        self.domains = []
        self.out_hide = rng.random() < 0.3
        self.names = None
        self.kw = {}

    def name(self, p="v"):
        self.k += 1
        return f"{p}{self.k}"

    def dim(self, s):
        if s not in self.sym:
            self.sym[s] = [int(self.rng.integers(1, 5)) for _ in range(self.nsets)]
        return self.sym[s]

    def inp(self, dt, shape, lo=-3.0, hi=3.0, step=None, fn=None, name=None, declare=None):
        """Runtime input. shape entries: int or symbol. fn(rng, concrete_shape, set) overrides the values."""
        n = name or self.name("x")
        sets = []
        for s in range(self.nsets):
            sh = tuple(self.dim(d)[s] if isinstance(d, str) else int(d) for d in shape)
            sets.append(np.asarray(fn(self.rng, sh, s)).astype(dt) if fn else vals(self.rng, dt, sh, lo, hi, step))
        self.ins.append((n, np.dtype(dt), list(shape) if declare is None else declare, sets))
        return n

    def const(self, arr, how=None, name=None):
        arr = np.asarray(arr)
        n = name or self.name("w")
        how = how or self.rng.choice(["raw", "raw", "typed", "node"])
        if how == "node":
            self.nodes.append(pb.Node("Constant", [], [n], value=pb.Tensor("", arr, enc=str(self.rng.choice(["raw", "typed"])) if arr.size else "raw")))
        else:
            self.inits.append(pb.Tensor(n, arr, enc=str(how) if arr.size else "raw"))
        return n

    def cs(self, v, how=None):
        """int64 1-D constant"""
        return self.const(np.array(v, np.int64).reshape(-1), how)

    def node(self, op, ins, nout=1, name=None, outs=None, **at):
        if op in ("Trilu", "HardSwish"):
            self.opset = max(self.opset, 14)  # the version that introduces them
        o = outs or [self.name("y") for _ in range(nout)]
        self.nodes.append(pb.Node(op, [i or "" for i in ins], o, name=name, **at))
        return o[0] if len(o) == 1 else o

    def out(self, *names):
        self.outs += names

    def build(self, desc=None, tags=(), expected=None, **kw):
        if not self.domains and self.rng.random() < 0.12:  # operator sets of other domains say nothing about these operators
            self.domains = [[("ai.onnx.ml", 3)], [("AI.ONNX.ML", 2)], [("COM.MICROSOFT", 1)], [("AI.ONNX.ML", 5), ("com.microsoft", 1), ("AI.ONNX.TRAINING", 1)], [("ORG.EXAMPLE", 30)]][int(self.rng.integers(0, 5))]
        m = pb.Model(pb.Graph(self.nodes, [], [], self.inits), opset=self.opset, domains=self.domains)
        sets, exps = [], []
        for s in range(self.nsets):
            env = {n: v[s] for n, _, _, v in self.ins}
            if expected is None:
                m.graph.outputs = [pb.VI(o, pb.FLOAT, None) for o in self.outs]
                e = ref.run_model(m, env)
            else:
                e = expected(s, env)
            exps.append([x if isinstance(x, tuple) or x is None else np.asarray(x) for x in e])
            sets.append([v[s] for _, _, _, v in self.ins])
        m.graph.inputs = [pb.VI(n, dt, sh) for n, dt, sh, _ in self.ins]
        outs = []
        for j, o in enumerate(self.outs):
            e0 = exps[0][j]
            dt = np.dtype(e0[0]) if isinstance(e0, tuple) else e0.dtype
            sh = e0[1] if isinstance(e0, tuple) else e0.shape
            dims = []
            for d in range(len(sh)):
                alld = {(e[j][1] if isinstance(e[j], tuple) else e[j].shape)[d] for e in exps}
                dims.append(int(sh[d]) if len(alld) == 1 and not self.out_hide else f"o{j}_{d}")
            outs.append(pb.VI(o, dt, dims))
        m.graph.outputs = outs
        kw = {**self.kw, **kw}
        d = desc or "; ".join(map(repr, [n for n in self.nodes if n.op != "Constant"]))
        d += " | in " + ", ".join(f"{n}:{dt}{sh}" for n, dt, sh, _ in self.ins) + f" | opset {self.opset}"
        return Case(m, sets, exps, desc=d, tags=tags, **kw)


def make(fns, seed, n, fam=0, only=None):
    """n cases drawn round-robin from the (weighted) generator list."""
    out = []
    idx = [f for f, w in fns for _ in range(w)] if isinstance(fns[0], tuple) else list(fns)
    i = k = 0
    while len(out) < n and k < 40 * n + 400:
        f = idx[i % len(idx)]
        rng = np.random.default_rng([seed, fam, k])
        k += 1
        i += 1
        if only and f.__name__ not in only:
            continue
        try:
            c = f(rng)
        except (Skip, ref.Unsupported):
            i -= 1 if k % 5 else 0
            continue
        c.gen = f.__name__
        out.append(c)
    return out


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def chance(rng, p):
    return rng.random() < p


def rshape(rng, lo=1, hi=4, dmin=1, dmax=4):
    return [int(rng.integers(dmin, dmax + 1)) for _ in range(int(rng.integers(lo, hi + 1)))]


def symbolic(rng, m, shape, p=0.35):
    """Replaces some dims by fresh symbols (which then vary between the sets)."""
    return [(m.name("n") if chance(rng, p) else d) for d in shape]
