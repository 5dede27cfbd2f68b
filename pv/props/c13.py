"""C13: inputs and outputs of the imported graph and of the generated forward function."""
import glob, os
import numpy as np
from .. import e2e, famcheck, gen, mutate, pb
from ..fam import iface, dag, control, elementwise, datamove
from .c08 import dtn


def typed(v, a):
    """None, or how the recorded argument contradicts the declared value."""
    if v.dtype not in pb.PB2NP:
        return None
    dt = np.dtype(pb.PB2NP[v.dtype]).name
    r = None if v.dims is None else len(v.dims)
    if a["k"] == "H":
        return None if dt == "int64" and r in (1, None) else f"Shape for {dt} of rank {r}"
    if dtn(a["d"]) != dt:
        return f"{a['d']} for {dt}"
    got = 0 if a["k"] in "SN" else a["r"]
    # an absent shape says nothing about the rank
    if r is not None and got != r and not (r == 0 and v.dims == []):
        return f"rank {got} for rank {r}"
    return None


def ir_check(ctx, items, tag):
    """items: (name, path, graph, known pin or None)"""
    jobs = [dict(id=f"{i}{s}", onnx=p, simplify=s == "s") for i, (_, p, _, _) in enumerate(items) for s in "sn"]
    work = os.path.join(ctx.work, tag)
    os.makedirs(work, exist_ok=True)
    res = e2e.hgen(ctx.built.exes["hgen"], "ir", jobs, work)
    for j in jobs:
        name, path, g, outs_typed = items[int(j["id"][:-1])]
        r = res[j["id"]]
        ctx.evaluations += 1
        if r["status"] != "ok":
            ctx.counts["not_imported"] += 1
            continue
        inits = {t.name for t in g.inits}
        ins = [v for v in g.inputs if v.name not in inits]
        bad = None
        gi, go = r["graph"]["in"], r["graph"]["out"]
        if len(gi) != len(ins):
            bad = f"{len(gi)} inputs for {len(ins)} runtime inputs"
        elif len(go) != len(g.outputs):
            bad = f"{len(go)} outputs for {len(g.outputs)} declared outputs"
        else:
            for k, (v, a) in enumerate(zip(ins, gi)):
                e = typed(v, a)
                bad = bad or (e and f"input {k} '{v.name}': {e}")
            for k, (v, a) in enumerate(zip(g.outputs, go)):
                e = typed(v, a) if outs_typed else None
                bad = bad or (e and f"output {k} '{v.name}': {e}")
                ctx.counts["interface_values_checked"] += 1
        if bad:
            ctx.violation(f"[interface] {name} (simplify {'on' if j['simplify'] else 'off'})", bad, {"model.onnx": open(path, "rb").read()})
        else:
            ctx.note(f"ir {name}")


def run(ctx):
    famcheck.run(ctx, [("iface", 1.0, 131), ("dag", 0.15, 132)], 900, 20000)
    n = ctx.pick(500, 6000)
    hs = []
    for mod, num, k in ((iface, 133, n), (control, 134, n // 5), (datamove, 135, n // 5), (elementwise, 136, n // 5)):
        for i, c in enumerate(gen.make(mod.GENS, ctx.seed, k, fam=num)):
            hs.append(mutate.hostile(np.random.default_rng([ctx.seed, num, i]), c))
    ctx.run_cases(hs, ("s", "n"), name="names")
    w = os.path.join(ctx.work, "irm")
    os.makedirs(w, exist_ok=True)
    items = []
    for i, c in enumerate(gen.make(iface.GENS, ctx.seed, ctx.pick(600, 6000), fam=137) + hs[:n]):
        p = os.path.join(w, f"m{i}.onnx")
        with open(p, "wb") as f:
            f.write(c.model.encode())
        items.append((c.desc, p, c.model.graph, True))
    for f in sorted(glob.glob(e2e.REPO + "/crates/onnx-tests/tests/*/*.onnx")):
        try:
            m = pb.dec_model(open(f, "rb").read(), os.path.dirname(f))
        except Exception:
            continue
        items.append((os.path.relpath(f, e2e.REPO), f, m.graph, False))
    ir_check(ctx, items, "ir")
    ctx.rule = ("Random models whose inputs are unused, repeated, passed through or constant outputs, several outputs of one node, shapes and scalars as outputs, in any order, and models whose value and node names are "
                "renamed to keywords, generated names, colliding, empty or non-ASCII names: executed with positional inputs and compared with an independent evaluation, and the recorded interface of the graph (count, order, "
                "element type, rank) compared with the declarations, also for all of the repository's fixtures. Non-trivial: distinct model with at least one output element.")
