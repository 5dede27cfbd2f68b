"""C16: unsupported operators, opsets, arities and attribute values are refused."""
import os
import numpy as np
from .. import e2e, models
from ..fam import refuse as F


def run(ctx):
    cs = models.stream(ctx.seed, ctx.pick(900, 12000), 16, mut=False, weights={"literals": 0.2, "iface": 0.3, "shapes": 0.5, "dag": 0.5})
    jobs, info = [], {}
    work = os.path.join(ctx.work, "m")
    os.makedirs(work)

    def job(what, model, kind, base):
        i = str(len(jobs))
        p = os.path.join(work, f"m{i}.onnx")
        with open(p, "wb") as fh:
            fh.write(model.encode())
        rng = np.random.default_rng([ctx.seed, 1617, len(jobs)])
        jobs.append(dict(id=i, onnx=p, out=os.path.join(work, "o" + i), simplify=bool(rng.random() < 0.7)))
        info[i] = (what, kind, p, base)
        return i

    for i, c in enumerate(cs):
        if c.files:
            continue
        b = job(c.desc, c.model, "base", None)
        for k in range(3):
            rng = np.random.default_rng([ctx.seed, 1616, i, k])
            r = F.violate(rng, c)
            if r:
                job(f"{r[1]}: {c.desc}", r[2], r[0], b)
    res = e2e.hgen(ctx.built.exes["hgen"], "gen", jobs, ctx.work)
    for j in jobs:
        what, kind, p, base = info[j["id"]]
        r = res[j["id"]]
        if kind == "base":
            ctx.counts["base:" + ("accepted" if r["ok"] else "refused")] += 1
            continue
        ctx.evaluations += 1
        left = [f for f in os.listdir(j["out"])] if os.path.isdir(j["out"]) else []
        if r["ok"] or any(f.endswith(".rs") for f in left):
            ctx.violation(f"[{kind}] {what}", "generated without an error" if r["ok"] else f"refused ({r['msg'][:200]}) but left {left}", {"model.onnx": (p,)})
        elif r.get("status") in ("crash", "hang"):
            ctx.violation(f"[{kind}] {what}", r["msg"], {"model.onnx": (p,)})
        else:
            ctx.counts[kind] += 1
            if res[base]["ok"]:
                ctx.note(f"{kind}{what[:150]}", f"[{kind}] {what[:200]}")
    if ctx.counts["base:refused"] > ctx.counts["base:accepted"] // 5:
        raise e2e.HarnessError("most of the models without a fault are refused")
    ctx.rule = ("Into models that import, at the top level or inside nested graphs, one fault is put: an operator that is unknown, unsupported or of another domain (also where its result is unused), an opset before the operator's first, missing, blank and surplus inputs and outputs, "
                "attribute values documented as unsupported; generation must fail and leave no source. Non-trivial: distinct faults in models that import without them.")
    ctx.level = "exploration"
