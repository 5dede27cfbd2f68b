"""C09: weights and constants reach the model bit for bit."""
import os
import numpy as np
from .. import bpk, e2e, gen, irmon, models
from ..fam import layers, linalg, literals, shapes, weights as W

def bpk_of(r):
    for f in os.listdir(r.dir):
        if f.endswith(".bpk"):
            return bpk.read(open(os.path.join(r.dir, f), "rb").read())
    return []


def ir_consts(g, out=None):
    """All constant values of a recorded graph: (dtype, shape, byte count, first bytes)."""
    out = set() if out is None else out
    for n in g["nodes"]:
        for a in n["in"] + n["out"]:
            v = a["val"]
            if isinstance(v, dict) and "x" in v:
                out.add((v["d"].split("(")[0], tuple(v["s"]), v["n"], v["x"]))
        for s in n["sub"]:
            ir_consts(s, out)
    for a in g["out"]:
        v = a["val"]
        if isinstance(v, dict) and "x" in v:
            out.add((v["d"].split("(")[0], tuple(v["s"]), v["n"], v["x"]))
    return out


def unused(ctx, r):
    p = os.path.join(r.dir, "unused.txt")
    if os.path.exists(p):
        ctx.violation(f"[left over] {r.case.desc} (simplify {'on' if r.variant == 's' else 'off'})", "stored, but not loaded by the generated model: " + open(p).read(), {"model.onnx": r.case.model.encode(), "generated.rs": (r.src,)})


def run(ctx):
    cases = gen.make([(W.consts, 5), (W.branches, 1)], ctx.seed, ctx.pick(600, 15000), fam=9)
    res, _ = irmon.imports(ctx, [(c.desc, c.model.encode(), c.files) for c in cases], "ir")
    for (i, v, _), r in res.items():
        ctx.evaluations += 1
        c = cases[i]
        if r["status"] != "ok":
            ctx.violation(f"[{r['status']}] {c.desc}", r["msg"], {"model.onnx": c.model.encode()})
            continue
        have = ir_consts(r["graph"])
        for n, (d, shape, b) in c.weights.items():
            ctx.counts["constants_in_graph"] += 1
            if v == "s" and n in c.reshaped:  # a constant Reshape is done at import
                shape = (int(np.prod(shape)),)
            if (d, shape, len(b), b[:4096].hex()) not in have:
                near = [h for h in have if h[1] == shape or h[2] == len(b)]
                ctx.violation(f"[graph] {c.desc} (simplify {'on' if v == 's' else 'off'})", f"'{n}' {d}{list(shape)} {b.hex()[:400]} is not among the graph's constants; close: {near[:3]}"[:2000], {"model.onnx": c.model.encode()})
            else:
                ctx.note(f"{v}{d}{shape}{b.hex()}", f"{v} {d} {shape} {b.hex()[:40]}")
    rng = np.random.default_rng([ctx.seed, 99])
    fars = [W.far(rng) for _ in range(ctx.pick(6, 40))]
    res, _ = irmon.imports(ctx, [f[:3] for f in fars], "far")
    for (i, v, _), r in res.items():
        ctx.evaluations += 1
        ctx.counts["far_offsets"] += 1
        have = ir_consts(r["graph"]) if r["status"] == "ok" else set()
        for d, shape, b in fars[i][3]:
            if (d, shape, len(b), b.hex()) not in have:
                ctx.violation(f"[far] {fars[i][0]} (simplify {'on' if v == 's' else 'off'})", f"{r['status']} {r.get('msg', '')}: {d}{list(shape)} {b.hex()} is not among the graph's constants"[:2000], {"model.onnx": fars[i][1]})
    for r in ctx.run_cases(cases, name="w"):
        c = r.case
        if r.status != "ran":
            continue
        unused(ctx, r)
        left = bpk_of(r)
        ctx.counts["weight_files"] += 1
        what = f"{c.desc} (simplify {'on' if r.variant == 's' else 'off'})"
        files = {"model.onnx": c.model.encode(), "generated.rs": (r.src,)}
        for n, (d, shape, b) in c.weights.items():
            if r.variant == "s" and n in c.reshaped:
                shape = (int(np.prod(shape)),)
            hit = [e for e in left if e[3] == b and e[1] == d and e[2] == shape]
            ctx.counts["stored_weights"] += len(hit)
            if not hit:
                ctx.violation(f"[stored] {what}", f"'{n}' {d}{list(shape)} {b.hex()[:300]} is not in the weight file (once for each): {[(e[0], e[1], e[2], e[3].hex()[:80]) for e in left]}"[:2000], files)
                break
            left.remove(hit[0])
        else:
            if left:
                ctx.violation(f"[stored] {what}", f"the weight file holds {[(e[0], e[1], e[2], e[3].hex()[:80]) for e in left]}, which no (further) weight of the model is"[:2000], files)
        for k in c.encs:
            ctx.counts["encoding:" + k] += 1
    # weights of layers: the same elements in whatever layout, once per use
    lay = gen.make([(layers.conv, 3), (layers.conv_transpose, 2), (layers.norm, 2), (linalg.gemm, 2), (linalg.mlp, 2), (linalg.shared_weight, 1), (layers.recurrent, 1), (layers.deform, 1)], ctx.seed, ctx.pick(260, 6000), fam=909)
    lit = gen.make([(W.scalars, 3), (W.attribute_values, 2)], ctx.seed, ctx.pick(200, 4000), fam=910) + gen.make(literals.GENS, ctx.seed, ctx.pick(120, 2500), fam=911)
    for r in ctx.run_cases(lay + lit, name="l"):
        c = r.case
        if r.status != "ran":
            continue
        unused(ctx, r)
        if c.gen in ("recurrent",) or r.variant == "s":
            continue
        ws = {}
        for t in c.model.graph.inits:
            if t.array is not None and t.array.dtype == np.float32 and t.array.size >= 4:
                ws[np.sort(t.array.reshape(-1).view(np.uint32)).tobytes()] = t.name
        for n in c.model.graph.nodes:
            if n.op == "Constant" and "value" in n.attrs and n.attrs["value"].array.dtype == np.float32 and n.attrs["value"].array.size >= 4:
                ws[np.sort(n.attrs["value"].array.reshape(-1).view(np.uint32)).tobytes()] = n.outputs[0]
        for e in bpk_of(r):
            if e[1] != "F32" or len(e[3]) < 16:
                continue
            v = np.frombuffer(e[3], np.uint32)
            if np.sort(v).tobytes() in ws:
                ctx.counts["layer_weights_identified"] += 1
            elif len(set(v.tolist())) > 1:
                ctx.violation(f"[layer] {c.desc} (simplify off)", f"'{e[0]}' {e[2]} holds elements that no weight of the model has: {np.frombuffer(e[3], np.float32)[:20]}", {"model.onnx": c.model.encode()})
    ctx.rule = ("Models whose weights have random bit patterns (special floats, extreme integers) of 13 element types, stored raw, in typed fields (packed, unpacked, split), in external files at odd offsets, or as Constant nodes: "
                "the constants of the imported graph, the weight file and the outputs of the running model are compared with the bytes put into the file; every stored tensor has to be loaded. Layer weights are compared up to layout. "
                "Non-trivial: distinct constant of type, shape and bytes.")
    ctx.level = "exploration"
