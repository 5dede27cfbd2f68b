"""C14: imported graphs are well formed; unsorted and dangling models are refused."""
import copy, os
import numpy as np
from .. import e2e, irmon, models, mutate, pb


def opsetless(rng, c):
    m = copy.deepcopy(c.model)
    m.opset = None
    if rng.random() < 0.5:
        m.domains = [("com.microsoft", 1), ("ai.onnx.ml", 3)][: int(rng.integers(1, 3))]
    d = mutate.clone(c, m)
    d.desc = "without an opset for the default domain: " + c.desc
    return d


def run(ctx):
    # 1. every imported graph is well formed
    src = models.sources(ctx.seed, ctx.pick(750, 12000), 14, weights={"control": 3, "dag": 2, "simp": 2})
    for b in range(0, len(src), 8000):
        part = src[b:b + 8000]
        res, paths = irmon.imports(ctx, [s[:3] for s in part], f"wf{b}")
        for (i, v, _), r in res.items():
            ctx.evaluations += 1
            name, m, files, c = part[i]
            if r["status"] != "ok":
                ctx.counts["not_imported"] += 1
                continue
            bad = irmon.wf(r["graph"])
            ctx.counts["graphs_checked"] += 1
            ctx.counts["nodes_checked"] += irmon.count(r["graph"])
            ctx.counts["family:" + (c.family if c else "fixtures")] += 1
            if bad:
                ctx.violation(f"[graph] {name} (simplify {'on' if v == 's' else 'off'})", "; ".join(bad[:5]), {"model.onnx": m if not isinstance(m, str) else (m,)})
            else:
                ctx.note(f"{v}{name}", name[:200])
    # 2. unsorted, cyclic and dangling models, at every depth, and models without an opset are refused
    base = models.stream(ctx.seed, ctx.pick(220, 4000), 15, mut=False, weights={"control": 6, "dag": 4, "simp": 2})
    items, why = [], []
    for i, c in enumerate(base):
        rng = np.random.default_rng([ctx.seed, 1415, i])
        k = i % 5
        r = None
        if k == 4:
            d = opsetless(rng, c)
            r = d, "no opset"
        elif k == 3:
            r = mutate.dangle(rng, c)
        else:
            r = mutate.disorder(rng, c, nested=True if getattr(c, "family", "") == "control" and i % 2 else None)
        if r is None:
            continue
        items.append((r[0].desc, r[0].model.encode(), c.files))
        why.append((r[1], ("dangling", "nested" if getattr(r[0], "depth", 0) else "top") if k == 3 else ("no opset", "top") if k == 4 else ("order", "nested" if r[0].depth else "top")))
    res, paths = irmon.imports(ctx, items, "bad", vias=("file", "bytes"))
    for (i, v, via), r in res.items():
        ctx.evaluations += 1
        w, cls = why[i]
        if r["status"] == "ok":
            bad = irmon.wf(r["graph"])
            if cls[0] == "dangling" and not bad:
                ctx.counts["dangling_reference_gone"] += 1
                continue
            ctx.violation(f"[accepted] {items[i][0]} (simplify {'on' if v == 's' else 'off'}, via {via})", f"the model was imported although: {w}" + (f"; the graph: {bad[0]}" if bad else ""), {"model.onnx": items[i][1]})
        elif r["status"] not in ("err", "panic"):
            ctx.violation(f"[{r['status']}] {items[i][0]}", r["msg"], {"model.onnx": items[i][1]})
        else:
            ctx.counts[f"refused:{cls[0]} {cls[1]}"] += 1
            ctx.note(f"bad {v}{via}{items[i][0]}")
    ctx.rule = ("Models of all operator families (about half rewritten with no-op chains, near-duplicate or unused nodes, or hostile names) and the repository's fixtures are imported, simplified and not; the recorded graph is checked at every "
                "nesting level for unique definitions, definition before use (captures included), data behind constants, and node names unique over the whole graph. Derived models with nodes out of order, cycles, undefined "
                "references (at any depth) or no opset have to be refused. Non-trivial: distinct model and simplification setting.")
    ctx.level = "exploration"
