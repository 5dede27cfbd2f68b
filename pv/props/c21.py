"""C21: unused computation is removed and nothing else."""
import copy, os
import numpy as np
from .. import e2e, gen, irmon, models, pb
from ..fam import live as L


def dead(g):
    """Nodes none of whose outputs contribute to an output of the graph (bodies are not simplified)."""
    live = {a["n"] for a in g["out"] if a["v"] != "opt"}
    bad = []
    for n in reversed(g["nodes"]):
        if not any(a["n"] in live for a in n["out"] if a["n"] and a["v"] != "opt"):
            bad.append(f"{n['ty']} '{n['name']}' -> {[a['n'] for a in n['out']]}")
            continue
        live |= {a["n"] for a in n["in"] if a["n"]}
        for s in n["sub"]:
            live |= irmon.free_names(s)
    return bad


def stored(arr, blobs, text):
    """How many elements of an array occur in the weight files or the source."""
    if arr.dtype.kind == "f":
        return sum(any(v.tobytes() in b for b in blobs) or repr(float(np.float64(str(v)))) in text for v in arr.reshape(-1))
    return sum(any(v.tobytes() in b for b in blobs) or str(int(v)) in text for v in arr.reshape(-1))


def outputs_of(d):
    blobs, text = [], ""
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if f.endswith(".rs"):
            text += open(p).read()
        elif f.endswith(".bpk"):
            blobs.append(open(p, "rb").read())
    return blobs, text


def clutter(rng, c):
    """Adds initializers and constants nothing (or only dead nodes) uses, also in bodies, of all element types."""
    m = copy.deepcopy(c.model)
    if isinstance(m, bytes):
        return None
    d = copy.copy(c)
    d.id, d.model, d.unused, d.dead = None, m, {}, {}
    graphs = [m.graph]
    for g in graphs:
        for n in g.nodes:
            graphs += list(L.subs(n))
    for k in range(int(rng.integers(1, 5))):
        g = m.graph if rng.random() < 0.6 else graphs[int(rng.integers(0, len(graphs)))]
        dt = [np.float32, np.float32, np.float64, np.int64, np.int32, np.uint32, np.uint64][int(rng.integers(0, 7))]
        shape = [(6,), (2, 3), (1, 5), (3, 2, 2)][int(rng.integers(0, 4))]
        if np.dtype(dt).kind == "f":
            a = np.asarray(rng.uniform(-9, 9, shape), dt)
        else:
            a = np.asarray(rng.integers(2 ** 27, 2 ** 31 - 1, shape), dt)
        nm = f"clutter{k}"
        r = rng.random()
        if r < 0.6:
            g.inits.insert(int(rng.integers(0, len(g.inits) + 1)), pb.Tensor(nm, a, enc=["raw", "typed"][int(rng.integers(0, 2))]))
        else:
            g.nodes.insert(int(rng.integers(0, len(g.nodes) + 1)), pb.Node("Constant", [], [nm], value=pb.Tensor("", a)))
        if g is m.graph and rng.random() < 0.5:
            k0 = next((i + 1 for i, n in enumerate(g.nodes) if nm in n.outputs), 0)
            k0 = int(rng.integers(k0, len(g.nodes) + 1))
            op = ["Neg", "Abs", "Identity"][int(rng.integers(0, 3))]
            if np.dtype(dt).kind == "u":
                op = "Identity"
            g.nodes.insert(k0, pb.Node(op, [nm], [nm + "_y"]))
            if rng.random() < 0.5:
                g.nodes.insert(k0 + 1, pb.Node("Add", [nm + "_y", nm], [nm + "_z"]))
            d.dead[nm] = a
        else:
            d.unused[nm] = a
    d.dead.update(d.unused)
    d.desc = f"with unused {sorted(d.unused)}, only used by unused nodes {sorted(set(d.dead) - set(d.unused))}: {c.desc}"
    return d


def run(ctx):
    src = models.sources(ctx.seed, ctx.pick(600, 12000), 21, weights={"control": 3, "dag": 2, "simp": 3})
    res, paths = irmon.imports(ctx, [s[:3] for s in src], "live", variants="s")
    for (i, v, _), r in res.items():
        name, m, files, c = src[i]
        ctx.evaluations += 1
        if r["status"] != "ok":
            ctx.counts["not_imported"] += 1
            continue
        bad = dead(r["graph"])
        ctx.counts["graphs_checked"] += 1
        ctx.counts["nodes_checked"] += irmon.count(r["graph"])
        if bad:
            ctx.violation(f"[dead] {name}", "; ".join(bad[:5]), {"model.onnx": m if not isinstance(m, str) else (m,)})
        else:
            ctx.note(name, name[:200])
    # the values that remain are right, and those that are gone are not stored
    live = gen.make(L.GENS, ctx.seed, ctx.pick(700, 20000), fam=21)
    fam = []
    for i, c in enumerate(models.stream(ctx.seed, ctx.pick(75, 1200), 22, mut=False, weights={"control": 3})):
        if hasattr(c.model, "graph") and c.expect == "ok" and not getattr(c, "pin", None):
            d = clutter(np.random.default_rng([ctx.seed, 21, i]), c)
            if d is not None:
                fam.append(d)
    for name, part in (("l", live), ("c", fam)):
        for r in ctx.run_cases(part, name=name):
            c = r.case
            if r.status != "ran":
                continue
            blobs, text = outputs_of(r.dir)
            gone = c.dead if r.variant == "s" else c.unused
            for k, a in gone.items():
                ctx.counts["unused_weights_sought"] += 1
                n = stored(a, blobs, text)
                if n >= 2:
                    ctx.violation(f"[stored] {c.desc} (simplify {'on' if r.variant == 's' else 'off'})", f"unused '{k}' {a.tolist()} is stored: {n} of its {a.size} elements are in the weights or the source", {"model.onnx": c.model.encode(), "generated.rs": (r.src,)})
            if name == "l":
                ctx.counts["dead_nodes"] += c.ndead
                ctx.counts["live_nodes"] += c.nlive
                ctx.counts["live_weights_seen_stored"] += sum(stored(a, blobs, text) == a.size for a in c.livew.values())
    # what draws random numbers is neither removed nor merged
    rnd = [c for c in live if c.nrandom]
    res, _ = irmon.imports(ctx, [(c.desc, c.model.encode(), c.files) for c in rnd], "random", variants="s")
    for (i, v, _), r in res.items():
        ctx.evaluations += 1
        if r["status"] != "ok":
            continue
        k = sum(n["ty"] in L.RANDOM for n in r["graph"]["nodes"])
        ctx.counts["random_nodes"] += rnd[i].nrandom
        if k != rnd[i].nrandom:
            ctx.violation(f"[random] {rnd[i].desc}", f"{rnd[i].nrandom} nodes that draw random numbers contribute to the outputs, the simplified graph has {k}", {"model.onnx": rnd[i].model.encode()})
        else:
            ctx.note("r" + rnd[i].desc)
    ctx.rule = ("In the simplified graph of models of all families and of the fixtures, liveness is recomputed backwards from the outputs (captures included): no node may be dead. Random models full of dead and half-used parts "
                "(chains, multi-output nodes, If/Loop with captures, nodes drawing random numbers) and models of all families with added unused weights are generated and run; results are compared with the ONNX evaluator, "
                "and the elements of unused weights (all distinct random numbers) are searched in the weight files and the source. Non-trivial: distinct model.")
    ctx.level = "exploration"
