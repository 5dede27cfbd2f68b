"""C08: types, ranks and static shapes claimed by the imported graph against the values of executions."""
import copy, importlib, os, re, sys
import numpy as np
from .. import e2e, gen, pb, ref, fixtures
from ..e2e import DT

D = {"F64": np.float64, "F32": np.float32, "F16": np.float16, "I64": np.int64, "I32": np.int32, "I16": np.int16, "I8": np.int8, "U64": np.uint64, "U32": np.uint32,
     "U16": np.uint16, "U8": np.uint8}
FAMS = [("elementwise", 81), ("datamove", 82), ("linalg", 83), ("layers", 84), ("control", 85), ("simp", 87), ("shapes", 86), ("dag", 89), ("padding", 80)]
BIG = {"linalg": 1.6, "datamove": 1.6, "layers": 1.3}


def dtn(s):
    return "bool" if s.startswith("Bool") else np.dtype(D[s]).name if s in D else s


def describe(v):
    return f"{v[0]}{tuple(v[1])}"


def mismatch(arg, values):
    """values: actual (dtype, shape) pairs of this value over all executions."""
    for dt, sh in values:
        if arg["k"] == "H":
            if dt.kind not in "i" or len(sh) != 1 or sh[0] != arg["r"]:
                return f"recorded as Shape({arg['r']}), is {describe((dt, sh))}"
            continue
        if dtn(arg["d"]) != dt.name:
            return f"recorded element type {arg['d']}, is {describe((dt, sh))}"
        if arg["k"] in "SN":
            if len(sh) != 0:
                return f"recorded as a scalar, is {describe((dt, sh))}"
            continue
        if arg["r"] != len(sh):
            return f"recorded rank {arg['r']}, is {describe((dt, sh))}"
        if arg["s"] is not None:
            if len(arg["s"]) != len(sh):
                return f"recorded static shape {arg['s']}, is {describe((dt, sh))}"
            for a, b in zip(arg["s"], sh):
                if a is not None and a != b:
                    return f"recorded static shape {arg['s']}, is {describe((dt, sh))}"
    return None


def ty(v):
    return (np.dtype(v[0]), tuple(v[1])) if isinstance(v, tuple) else (np.asarray(v).dtype, np.asarray(v).shape)


class Recorder:
    """Records every value each (sub)graph sees while the reference runs."""

    def __enter__(self):
        self.rec, self.orig = {}, ref.run_graph

        def run(g, env, opset):
            outs, e2 = self.orig(g, env, opset)
            self.rec.setdefault(id(g), []).append(([env.get(i.name) for i in g.inputs], outs))
            return outs, e2
        ref.run_graph = run
        return self

    def __exit__(self, *a):
        ref.run_graph = self.orig


def subgraphs(n):
    gs = {k: v.v if isinstance(v, pb.A) else v for k, v in n.attrs.items()}
    return [gs[k] for k in ("then_branch", "else_branch", "body") if isinstance(gs.get(k), pb.Graph)]


def _own(op, ins, sh=(1, 1, 4, 4), **at):
    def build():
        m = gen.M(np.random.default_rng(5), opset=18)
        x = m.inp(np.float32, list(sh))
        m.out(m.node("Relu", [m.node(op, [x] + [i if isinstance(i, str) else m.const(i) for i in ins], **at)]))
        return m.build()
    return build


def _loop():
    from ..fam import control
    return control.p_loop_scan()


I = lambda *v: np.array(v, np.int64)
PINS = {
    "own-MaxPool": _own("MaxPool", [], kernel_shape=[2, 2]),
    "own-GlobalAveragePool": _own("GlobalAveragePool", []),
    "own-ConvTranspose": _own("ConvTranspose", [np.ones((1, 2, 2, 2), np.float32)]),
    "own-Slice": _own("Slice", [I(1), I(3), I(2)]),
    "own-Resize": _own("Resize", ["", "", I(1, 1, 8, 8)], mode="nearest"),
    "own-Pad": _own("Pad", [I(0, 0, 1, 1, 0, 0, 1, 1)]),
    "own-Tile": _own("Tile", [I(1, 2, 1, 1)]),
    "loop-scan-type": _loop,
}
FIXPINS = {"equal-shapes": ("equal_two_shapes.onnx", "where_shape_all_shapes.onnx", "where_shapes_from_inputs.onnx"), "reshape-scalar": ("gather_scalar_input.onnx", "reshape_scalar_to_scalar.onnx")}


def prepare(case, mode, rng):
    """Builds the variant of the case's model for one mode and the values seen in executions."""
    m = case.model
    if isinstance(m, bytes):
        m = pb.dec_model(m)
    inits = {t.name for t in m.graph.inits}
    ins = [v for v in m.graph.inputs if v.name not in inits]
    envs = []
    with Recorder() as R:
        for s in case.sets:
            envs.append(ref.run_model(m, {v.name: x for v, x in zip(ins, s)}, want="all"))
    vals = {}
    # the stacking of Loop scan outputs is a known finding of its own (pin loop-scan-type)
    made = [o for n in m.graph.nodes for o in (n.outputs[:len(n.inputs) - 2] if n.op == "Loop" and not getattr(case, "pin", None) else n.outputs) if o]
    for o in made:
        if all(o in e and e[o] is not None for e in envs):
            vals[o] = [ty(e[o]) for e in envs]
    g = copy.copy(m.graph)
    m2 = copy.copy(m)
    m2.graph = g
    base = [o.name for o in m.graph.outputs]
    inner = [o for o in made if o in vals and o not in base]
    if mode == "all":
        extra = inner
    elif mode == "plain":
        extra = []
    else:
        extra = [o for o in inner if rng.random() < 0.5]
    dims = lambda v: [f"d{i}" for i in range(len(v[0][1]))]
    g.outputs = list(m.graph.outputs) + [pb.VI(o, pb.NP2PB[vals[o][0][0]], dims(vals[o])) for o in extra]
    vis = []
    for o in inner:
        if o in extra:
            continue
        v = vals[o]
        if mode == "partial":
            vis.append(pb.VI(o, pb.NP2PB[v[0][0]], [int(v[0][1][i]) if len({t[1][i] for t in v}) == 1 and rng.random() < 0.5 else f"p{i}" for i in range(len(v[0][1]))]))
        elif mode == "wrong":
            dt = v[0][0] if rng.random() < 0.5 else np.dtype([np.float32, np.int64, np.bool_][int(rng.integers(3))])
            vis.append(pb.VI(o, pb.NP2PB[dt], [f"p{i}" for i in range(len(v[0][1]) + int(rng.integers(0, 2)))] or ["p"]))
    g.vis = vis
    outs = base + extra
    return m2, outs, [vals.get(o) or None for o in outs], ins, envs, R.rec, m


OWN = ("MaxPool", "GlobalAveragePool", "ConvTranspose", "Slice", "Resize", "Pad", "Tile")


def check(ctx, case, mode, simp, r, outs, ov, ins, rec, m):
    pin = getattr(case, "pin", None)
    g = r["graph"]
    bad = []
    seen = 0

    def one(where, arg, values):
        nonlocal seen
        if not values:
            return
        seen += 1
        ctx.counts["claims_checked"] += len(values)
        if arg["k"] == "T" and arg["s"] is not None and any(d is not None for d in arg["s"]):
            ctx.counts["static_shape_claims"] += 1
        ctx.counts["kind_" + arg["k"]] += 1
        e = mismatch(arg, values)
        if e:
            bad.append(f"{where} '{arg['n']}' {e}")
    if len(g["out"]) != len(outs) or len(g["in"]) != len(ins):
        return ["the graph has %d inputs and %d outputs" % (len(g["in"]), len(g["out"]))], 1
    for i, (v, a) in enumerate(zip(ins, g["in"])):
        one(f"input {v.name}", a, [ty(s[i]) for s in case.sets])
    by = {}
    for o, a, v in zip(outs, g["out"], ov):
        one(f"value {o}", a, v)
        if v:
            by[a["n"]] = (o, v)
    for n in g["nodes"]:
        for a in n["in"] + n["out"]:
            if a["v"] == "dyn" and a["n"] in by:
                if a is n["out"][0] and not pin and re.sub(r"\dd$", "", n["ty"]) in OWN and n["in"] and a["s"] is not None and a["s"] == n["in"][0]["s"]:
                    a = dict(a, s=None)  # known findings own-*: the node itself keeps the static shape of its input
                    ctx.counts["own_static_shape_skipped"] += 1
                one(f"value {by[a['n']][0]} at node {n['name']}", a, by[a["n"]][1])
    if not simp:
        def walk(nodes, irnodes):
            a = [n for n in nodes if subgraphs(n)]
            b = [n for n in irnodes if n["sub"]]
            if len(a) != len(b):
                return
            for n, x in zip(a, b):
                for sg, sx in zip(subgraphs(n), x["sub"]):
                    runs = rec.get(id(sg))
                    if runs:
                        for j, arg in enumerate(sx["in"]):
                            one(f"body input {j} of {n.op}", arg, [ty(i[j]) for i, _ in runs if j < len(i) and i[j] is not None])
                        for j, arg in enumerate(sx["out"]):
                            one(f"body output {j} of {n.op}", arg, [ty(o[j]) for _, o in runs])
                    walk(sg.nodes, sx["nodes"])
        walk(m.graph.nodes, g["nodes"])
    return bad, seen


def run_cases(ctx, cases, modes, tag):
    jobs, info = [], {}
    work = os.path.join(ctx.work, tag)
    os.makedirs(work, exist_ok=True)
    k = 0
    for ci, c in enumerate(cases):
        rng = np.random.default_rng([ctx.seed, 808, ci])
        for mode in modes if not getattr(c, "pin", None) else ("all",):
            try:
                p = prepare(c, mode, rng)
            except Exception as e:  # the reference cannot evaluate this variant
                ctx.counts["prepare_failed"] += 1
                ctx.errors.append(f"{c.desc[:100]}: {e!r}"[:250])
                continue
            f = os.path.join(work, f"m{k}.onnx")
            with open(f, "wb") as fh:
                fh.write(p[0].encode())
            for s in (True, False):
                jobs.append(dict(id=f"{k}{'s' if s else 'n'}", onnx=f, simplify=s))
                info[jobs[-1]["id"]] = (c, mode, s, p, f)
            k += 1
    res = e2e.hgen(ctx.built.exes["hgen"], "ir", jobs, work)
    plain = {}
    for jid, (c, mode, s, p, f) in info.items():
        if mode == "plain":
            plain[id(c), s] = res[jid]["status"]
    for jid, (c, mode, s, p, f) in info.items():
        r = res[jid]
        ctx.evaluations += 1
        if r["status"] != "ok":
            ctx.counts["not_imported"] += 1
            if mode in ("wrong", "partial") and plain.get((id(c), s)) == "ok":
                ctx.violation(f"[annotations] imported without intermediate annotations but refused with {mode} ones: {c.desc[:300]}", str(r.get("msg"))[:500], {"model.onnx": (f,)})
            continue
        bad, seen = check(ctx, c, mode, s, r, p[1], p[2], p[3], p[5], p[6])
        ctx.counts["graphs_" + mode] += 1
        if seen:
            ctx.note(f"{c.gen}{jid}{tag}" if not isinstance(c.model, bytes) else c.desc, f"{mode}: {c.desc[:200]}")
        if bad:
            t = "; ".join(bad[:3])
            pin = getattr(c, "pin", None) or next((k for k, p in FIXPINS.items() if os.path.basename(c.desc) in p), None)
            if pin and ctx.known_id(pin, t):
                continue
            ctx.violation(f"[type] {t}", f"{mode} outputs, simplify {s}: {c.desc[:500]}", {"model.onnx": (f,)})


def run(ctx):
    ctx.rule = ("Random models of every operator family are imported with their intermediate values exposed as outputs; each recorded element type, rank and static dimension is compared "
                "with the values of reference executions (two input sets with different symbolic sizes). Non-trivial: a graph in which at least one claim was checked.")
    n = int(os.environ.get("VERIF_N", ctx.pick(900, 12000)))
    mods = []
    for f, _ in FAMS:
        try:
            mods.append((f, importlib.import_module("pv.fam." + f)))
        except ModuleNotFoundError:
            pass
    from .. import famcheck
    num = dict(FAMS)
    mods.append(("own", sys.modules[__name__]))
    pc = famcheck.pins(ctx, [m for _, m in mods])
    run_cases(ctx, pc, ("all",), "pin")
    for f, mod in mods[:-1]:
        cs = gen.make(mod.GENS, ctx.seed, int(n * BIG.get(f, 1)), fam=num[f])
        run_cases(ctx, cs, ("plain", "all", "partial", "wrong"), f)
    fx, _ = fixtures.cases(ctx.seed)
    fx = [c for c in fx if "resize_with_sizes_tensor" not in c.desc]  # random sizes are no valid input of it
    for c in fx:
        c.gen = "fixture"
    run_cases(ctx, fx, ("plain", "all"), "fixtures")
