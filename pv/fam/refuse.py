"""Models that contain one thing the importer must refuse."""
import copy
import numpy as np
from .. import pb
from ..mutate import subgraphs, walk
from ..gen import chance, pick
from ..opspec import OPS, SUPPORTED

UNSUPPORTED = sorted(set(OPS) - set(SUPPORTED) - {"Im"})
INVENTED = ["FooBar", "Relu6", "Gelu2", "MyOp", "Convolution", "Sigmoid_", "MatMul2", "ReduceAll", "Tanhh", "LayerNorm", "Swish1", "FusedConv", "BiasGelu", "aten::add", "Upsample", "Crop", "GivenTensorFill", "Affine", "ImageScaler", "ParametricSoftplus", "Scale", "ATen", "ScaledTanh"]


def nodes(m):
    return [(d, g, n) for d, g in subgraphs(m.graph) for n in g.nodes]


def attr(n, k, default=None):
    v = n.attrs.get(k)
    return default if v is None else v.v if isinstance(v, pb.A) else v


def setter(**kv):
    def f(rng, n, m):
        for k, v in kv.items():
            n.attrs[k] = pick(rng, v) if isinstance(v, list) else v
        return True
    return f


def rank(m, name):
    for g in walk(m.graph):
        for v in list(g.inputs) + list(g.vis):
            if v.name == name and isinstance(v.dims, list):
                return len(v.dims)
    return None


def rnn(rng, n, m):
    two = attr(n, "direction", "forward") in ("bidirectional", b"bidirectional")
    per = {"GRU": 2, "LSTM": 3, "RNN": 1}[n.op]
    k = pick(rng, ["act", "dir", "lens", "peep", "differ", "params"])
    if k == "act":
        a = ["Sigmoid", "Tanh", "Tanh"][:per] if per > 1 else ["Tanh"]
        a = a * (2 if two else 1)
        a[int(rng.integers(0, len(a)))] = pick(rng, ["Foo", "Swish", "tanhh", "Gelu"])
        n.attrs["activations"] = pb.A("strings", a)
    elif k == "dir":
        n.attrs["direction"] = pick(rng, ["sideways", "backward", "Forward ", "both"])
    elif k == "lens":
        n.inputs = (n.inputs + [""] * 6)[:max(len(n.inputs), 5)]
        n.inputs[4] = "lens_"
        m.graph.inits.append(pb.Tensor("lens_", np.array([1], np.int32)))
    elif k == "peep" and n.op == "LSTM":
        n.inputs = (n.inputs + [""] * 8)[:8]
        n.inputs[7] = n.inputs[1]
    elif k == "params":
        a = ["Sigmoid", "Tanh", "Tanh"][:per] if per > 1 else ["Tanh"]
        f = pick(rng, ["HardSigmoid", "LeakyRelu"])
        a[int(rng.integers(0, per))] = f
        n.attrs["activations"] = pb.A("strings", a * (2 if two else 1))
        n.attrs["activation_alpha"] = pb.A("floats", [pick(rng, [0.3, 0.05, 1.0])] * (2 if two else 1))
        if f == "HardSigmoid" and chance(rng, 0.5):
            n.attrs["activation_beta"] = pb.A("floats", [pick(rng, [0.3, 0.6, 0.0])] * (2 if two else 1))
    elif k == "differ" and two:
        a = {"GRU": ["Sigmoid", "Tanh", "Sigmoid", "Relu"], "LSTM": ["Sigmoid", "Tanh", "Tanh", "Sigmoid", "Relu", "Tanh"], "RNN": ["Tanh", "Relu"]}[n.op]
        n.attrs["activations"] = pb.A("strings", a)
    else:
        return False
    return k


def attention(rng, n, m):
    k = pick(rng, ["nonpad", "mode"])
    if k == "nonpad":
        m.opset = max(m.opset, 24)
        n.inputs = (n.inputs + [""] * 6)[:6] + ["nonpad_"]
        m.graph.inits.append(pb.Tensor("nonpad_", np.array([1], np.int64)))
    else:
        n.attrs["qk_matmul_output_mode"] = pick(rng, [4, 7, -1])
    return k


def ctpads(rng, n, m):
    p = attr(n, "pads")
    if p is None:
        return False
    p = list(p)
    if chance(rng, 0.5):
        p[int(rng.integers(0, len(p)))] += 1
        n.attrs["pads"] = p
        return "asymmetric"
    n.attrs["pads"] = [-1] * len(p)
    return "negative"


def axes_attr(rng, n, m):
    if m.opset < 13 or len([i for i in n.inputs if i]) < 2:
        return False
    n.inputs = n.inputs[:1]
    n.attrs["axes"] = [0]
    return True


def resize(rng, n, m):
    k = pick(rng, ["mode", "antialias", "axes", "exclude_outside", "extrapolation_value", "keep_aspect_ratio_policy", "roi", "batch"])
    if k == "mode":
        n.attrs["mode"] = pick(rng, ["foo", "area", "Linear2", "lanczos"])
    elif k == "antialias" and m.opset >= 18:
        n.attrs["antialias"] = 1
    elif k == "axes" and m.opset >= 18:
        n.attrs["axes"] = [2, 3]
    elif k == "exclude_outside" and m.opset >= 11:
        n.attrs["exclude_outside"] = 1
    elif k == "extrapolation_value" and m.opset >= 11:
        n.attrs["extrapolation_value"] = 1.5
    elif k == "keep_aspect_ratio_policy" and m.opset >= 18:
        n.attrs[k] = pick(rng, ["not_larger", "not_smaller"])
    elif k == "roi" and m.opset >= 11 and len(n.inputs) >= 3:
        n.inputs[1] = "roi_"
        m.graph.inits.append(pb.Tensor("roi_", np.array([0, 0, 0, 0, 1, 1, 1, 1], np.float32)))
        n.attrs["coordinate_transformation_mode"] = "tf_crop_and_resize"
    elif k == "batch" and m.opset >= 11:
        j = 2 if len(n.inputs) == 3 else 3
        c = const(m, n.inputs[j])
        if c is None or rank(m, n.inputs[0]) is None:
            return False
        c = np.array(c)
        c[int(rng.integers(0, 2))] *= 2
        n.inputs[j] = "sizes_"
        m.graph.inits.append(pb.Tensor("sizes_", c))
        x = next((v for v in m.graph.inputs if v.name == n.inputs[0]), None)
        if j == 3 and (x is None or any(isinstance(d, str) for d in x.dims[:2])):
            return False
    else:
        return False
    return k


def const(m, name):
    for g in walk(m.graph):
        for t in g.inits:
            if t.name == name:
                return t.array
    return None


def pad(rng, n, m):
    p = attr(n, "pads")
    if p is None and len(n.inputs) > 1:
        p = const(m, n.inputs[1])
    if p is None or not np.any(p):  # nothing to pad: the node goes away
        return False
    k = pick(rng, ["mode", "axes"])
    if k == "mode":
        n.attrs["mode"] = pick(rng, ["foo", "Constant", "mirror", "symmetric"])
    elif m.opset >= 18 and len(n.inputs) >= 2:
        n.inputs = (n.inputs + ["", ""])[:4]
        n.inputs[3] = "axes_"
        m.graph.inits.append(pb.Tensor("axes_", np.array([0], np.int64)))
    else:
        return False
    return k


def perm(rng, n, m):
    p = attr(n, "perm")
    if p is None:
        return False
    n.attrs["perm"] = list(p) + [len(p)] if chance(rng, 0.5) or len(p) < 2 else list(p)[:-1] if 0 else sorted(p)[:-1]
    return True


def layernorm(rng, n, m):
    if (rank(m, n.inputs[0]) or 0) < 2:
        return False
    n.attrs["axis"] = 0
    return "axis 0 of a tensor of rank 2 or more"


def reshape(rng, n, m):
    if len(n.inputs) < 2:
        return False
    k = pick(rng, ["two -1", "0 and -1 with allowzero"])
    if k[0] == "0" and m.opset < 14:
        return False
    n.inputs[1] = "shape_"
    m.graph.inits.append(pb.Tensor("shape_", np.array([-1, -1] if k[0] == "t" else [0, -1], np.int64)))
    if k[0] == "0":
        n.attrs["allowzero"] = 1
    return k


def step0(rng, n, m):
    if m.opset < 10 or len(n.inputs) < 3:
        return False
    c = {t.name: t for g in walk(m.graph) for t in g.inits}
    if n.inputs[1] not in c:
        return False
    k = int(c[n.inputs[1]].array.size) if getattr(c[n.inputs[1]], "array", None) is not None else 1
    n.inputs = (n.inputs + [""] * 3)[:5]
    n.inputs[4] = "steps_"
    m.graph.inits.append(pb.Tensor("steps_", np.zeros(k, np.int64)))
    return True


def newer(attrname, value, opset):
    def f(rng, n, m):
        m.opset = pick(rng, list(range(max(1, opset - 4), opset)))
        n.attrs[attrname] = value
        return f"at opset {m.opset}"
    return f


def drop(name):
    def f(rng, n, m):
        if n.attrs.pop(name, None) is None:
            return False
        return f"without {name}"
    return f


def training(rng, n, m):
    """A batch normalization by the statistics of the batch: asked for since opset 14, shown by its outputs before and since."""
    k = pick(rng, ["mode", "outputs", "both"]) if m.opset >= 14 else "outputs"
    if k != "outputs":
        n.attrs["training_mode"] = 1
    if k != "mode":
        n.outputs = n.outputs[:1] + [f"{n.outputs[0]}_stat{i}" for i in range(2 if m.opset >= 14 else 4)]
    return f"training: {k}"


ATTRS = [
    ("BatchNormalization", training), ("BatchNormalization", training),
    ("ArgMax", setter(select_last_index=1)), ("ArgMin", setter(select_last_index=1)), ("ArgMax", setter(keepdims=[2, -1])), ("ArgMin", setter(keepdims=[2, -1])),
    ("Attention", setter(qk_matmul_output_mode=[4, -1, 9])),
    ("AveragePool", newer("ceil_mode", 1, 10)), ("AveragePool", setter(auto_pad=["FOO", "SAME", "valid"])), ("MaxPool", setter(auto_pad=["FOO", "SAME", "valid"])),
    ("MaxPool", newer("ceil_mode", 1, 10)), ("Conv", setter(auto_pad=["FOO", "SAME", "valid"])), ("ConvTranspose", setter(auto_pad=["SAME_UPPER", "SAME_LOWER", "FOO"])), ("ConvTranspose", ctpads),
    ("BitShift", setter(direction=["UP", "sideways", ""])), ("Cast", setter(to=[0, 8, 14, 15, 99, -1])), ("DepthToSpace", setter(mode=["XYZ", "dcr", ""])), ("DepthToSpace", setter(blocksize=[0])),
    ("SpaceToDepth", setter(blocksize=[0])), ("EyeLike", setter(dtype=[8, 0, 99])), ("GridSample", setter(mode=["foo", "area"])), ("GridSample", setter(padding_mode=["foo", "wrap"])),
    ("Attention", attention), ("Attention", attention),
    ("GRU", rnn), ("LSTM", rnn), ("RNN", rnn), ("GRU", rnn), ("LSTM", rnn), ("RNN", rnn), ("GRU", rnn), ("LSTM", rnn), ("RNN", rnn), ("LayerNormalization", layernorm), ("Pad", pad), ("Pad", pad),
    ("Reshape", reshape), ("Reshape", reshape), ("Resize", resize), ("Resize", resize), ("Resize", resize), ("Resize", resize), ("ScatterElements", setter(reduction=["foo", "Add", "sum"])), ("ScatterND", setter(reduction=["foo", "Add", "sum"])),
    ("Slice", step0), ("Squeeze", axes_attr), ("Unsqueeze", axes_attr), ("TopK", setter(largest=0)), ("TopK", setter(sorted=0)), ("Transpose", perm),
    ("RandomNormal", setter(dtype=[6, 7, 9, 8])), ("RandomUniform", setter(dtype=[6, 7, 9, 8])), ("RandomNormalLike", setter(dtype=[6, 7, 9, 8])), ("RandomUniformLike", setter(dtype=[6, 7, 9, 8])),
    ("GroupNormalization", setter(num_groups=[97])), ("Gather", setter(axis=[9, -9])), ("GatherElements", setter(axis=[9, -9])), ("ScatterElements", setter(axis=[9, -9])), ("Split", lambda rng, n, m: len(n.outputs) > 1 and setter(axis=[9, -9])(rng, n, m)),
    ("CumSum", None), ("GatherND", setter(batch_dims=[9])),
    ("ReduceSum", None), 
    ("Cast", drop("to")), ("Concat", drop("axis")), ("DepthToSpace", drop("blocksize")), ("SpaceToDepth", drop("blocksize")), ("GroupNormalization", drop("num_groups")), ("MaxPool", drop("kernel_shape")), ("AveragePool", drop("kernel_shape")),
    ("RandomNormal", drop("shape")), ("RandomUniform", drop("shape")),
]
ATTRS = [a for a in ATTRS if a[1]]


def live(m):
    """Nodes on which a result of the model depends."""
    ns = [n for _, _, n in nodes(m)]
    names, seen = {o.name for o in m.graph.outputs}, set()
    while True:
        new = [n for n in ns if id(n) not in seen and names & set(n.outputs)]
        if not new:
            return seen
        for n in new:
            seen.add(id(n))
            names |= set(n.inputs)
            for v in n.attrs.values():
                v = v.v if isinstance(v, pb.A) else v
                if isinstance(v, pb.Graph):
                    names |= {o.name for o in v.outputs}


def wrap(rng, m):
    """The whole graph as a branch of an If."""
    g = m.graph
    inner = pb.Graph(g.nodes, [], g.outputs, g.inits, g.vis, name="inner")
    outs = []
    els, inits = [], []
    for k, o in enumerate(g.outputs):
        if not isinstance(o.dims, list) or any(not isinstance(d, int) for d in o.dims) or not o.dims:
            return None
        inits.append(pb.Tensor(f"z{k}_", np.zeros(o.dims, pb.PB2NP[o.dtype])))
        els.append(pb.Node("Identity", [f"z{k}_"], [f"e{k}_"]))
        outs.append(pb.VI(f"e{k}_", o.dtype, o.dims))
    other = pb.Graph(els, [], outs, inits, name="other")
    a, b = (inner, other) if chance(rng, 0.5) else (other, inner)
    node = pb.Node("If", ["sel_"], [f"w{k}_" for k in range(len(outs))], then_branch=a, else_branch=b)
    m.graph = pb.Graph([node], g.inputs + [pb.VI("sel_", pb.NP2PB[np.dtype(bool)], [])], [pb.VI(f"w{k}_", o.dtype, o.dims) for k, o in enumerate(g.outputs)])
    return m


def violate(rng, c):
    """(kind, what, model) or None."""
    m = copy.deepcopy(c.model)
    if chance(rng, 0.25):
        m = wrap(rng, m) or copy.deepcopy(c.model)
    ns = nodes(m)
    if not ns:
        return None
    kind = pick(rng, ["op", "opset", "inputs", "inputs", "outputs", "attr", "attr"])
    depth, g, n = pick(rng, ns)
    for _ in range(3):
        if n.op in ("Constant", "Identity"):
            depth, g, n = pick(rng, ns)
    at = f", depth {depth}" if depth else ""
    if kind == "op":
        old = n.op
        k = pick(rng, ["unsupported", "unsupported", "invented", "domain", "dead"])
        if k == "dead":
            src = [v.name for v in m.graph.inputs] + [o for x in m.graph.nodes for o in x.outputs if o]
            if not src:
                return None
            x = pb.Node(pick(rng, UNSUPPORTED + INVENTED), [pick(rng, src)], ["dead_"])
            m.graph.nodes.append(x)
            return f"op:{k}", f"{x.op}, result unused", m
        if k == "domain":
            n.domain = pick(rng, ["com.microsoft", "ai.onnx.ml", "custom", "org.pytorch.aten", "ai.onnx.preview.training", "ai.onnx2"])
            m.domains = list(m.domains) + [(n.domain, 1)]
            return "op:domain", f"{n.domain}.{n.op}{at}", m
        n.op = pick(rng, {"unsupported": UNSUPPORTED, "invented": INVENTED}[k])
        if n.op == old:
            return None
        return f"op:{k}", f"{n.op} instead of {old}{at}", m
    if kind == "opset":
        late = [x for x in ns if OPS.get(x[2].op, (1,))[0] > 1]
        if not late:
            return None
        depth, g, n = pick(rng, late)
        s = OPS[n.op][0]
        m.opset = s - 1 if chance(rng, 0.7) else int(rng.integers(1, s))
        return "opset", f"{n.op} (since opset {s}) at opset {m.opset}" + (f", depth {depth}" if depth else ""), m
    if n.op not in OPS and kind != "attr":
        return None
    if kind == "inputs":
        _, lo, hi, _, _ = OPS[n.op]
        have = list(n.inputs)
        k = pick(rng, ["few", "many", "blank"])
        if k == "few":
            if lo == 0:
                return None
            n.inputs = have[:int(rng.integers(0, lo))]
        elif k == "blank":
            if lo == 0 or not have:
                return None
            i = int(rng.integers(0, min(lo, len(have))))
            if n.op == "Loop":  # trip count and condition are optional
                return None
            n.inputs[i] = ""
        else:
            if hi is None:
                return None
            src = [v.name for v in m.graph.inputs] + [t.name for t in m.graph.inits] + [v for v in have if v]
            if not src:
                return None
            n.inputs = (have + [""] * hi)[:hi] + [pick(rng, src) for _ in range(1 if chance(rng, 0.7) else 3)]
        return f"inputs:{k}", f"{n.op} with inputs {n.inputs}{at} at opset {m.opset}", m
    if kind == "outputs":
        _, _, _, lo, hi = OPS[n.op]
        if chance(rng, 0.3) and lo > 0:
            n.outputs = n.outputs[:lo - 1]
            return "outputs:few", f"{n.op} with outputs {n.outputs}{at}", m
        if hi is None:
            return None
        n.outputs = (n.outputs + [f"more{i}_" for i in range(hi)])[:hi] + ["extra_"] + (["extra2_"] if chance(rng, 0.3) else [])
        return "outputs:many", f"{n.op} with outputs {n.outputs}{at} at opset {m.opset}", m
    used = live(m)
    cand = [(x, f) for x in ns for o, f in ATTRS if o == x[2].op and id(x[2]) in used]
    if not cand:
        return None
    (depth, g, n), f = pick(rng, cand)
    before = dict(n.attrs)
    r = f(rng, n, m)
    if not r:
        return None
    ch = {k: v for k, v in n.attrs.items() if k not in before or before[k] is not v}
    return "attr", f"{n.op} {r if r is not True else ''} {ch}" + (f", depth {depth}" if depth else "") + f" at opset {m.opset}", m
