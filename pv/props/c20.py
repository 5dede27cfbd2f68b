"""C20: padding. Executions over wide geometry, and refusal of wrong specifications."""
import copy, os
import numpy as np
from .. import e2e, famcheck, gen, pb
from ..fam import padding


def wrong(rng, case):
    """Mutates one padding attribute of a model with a window operator into one ONNX does not allow."""
    m = case.model
    nodes = list(m.graph.nodes)
    at = [i for i, n in enumerate(nodes) if n.op in ("Conv", "ConvTranspose", "MaxPool", "AveragePool")]
    if not at:
        return None
    i = at[int(rng.integers(len(at)))]
    n = copy.copy(nodes[i])
    n.attrs = dict(n.attrs)
    k = n.attrs.get("kernel_shape")
    if k is None:
        w = next(t for t in (x for x in m.graph.inits) if t.name == n.inputs[1]) if any(t.name == n.inputs[1] for t in m.graph.inits) else None
        if w is None:
            return None
        nd = w.array.ndim - 2
    else:
        nd = len(k)
    kind = ["negative", "short", "long", "mode"][int(rng.integers(4))]
    if kind == "mode":
        n.attrs["auto_pad"] = str(rng.choice(["SAME", "same_upper", "FULL", "SAME_UPPER ", "", "NOT_SET", "EXPLICIT"]))
        n.attrs.pop("pads", None)
        spec = f"auto_pad={n.attrs['auto_pad']!r}"
    else:
        n.attrs.pop("auto_pad", None)
        p = [int(rng.integers(0, 3)) for _ in range(nd)] * 2
        if kind == "negative":
            j = int(rng.integers(2 * nd))
            p[j] = -int(rng.integers(1, 4))
            if n.op == "ConvTranspose":
                p[(j + nd) % (2 * nd)] = p[j]
        elif kind == "short":
            p = p[:int(rng.integers(1, 2 * nd))]
        else:
            p = p + [int(rng.integers(1, 3)) for _ in range(int(rng.integers(1, 3)))]
        n.attrs["pads"] = p
        spec = f"pads={p} for {nd} axes"
    nodes[i] = n
    m2 = copy.copy(m)
    m2.graph = copy.copy(m.graph)
    m2.graph.nodes = nodes
    return m2, f"{n.op} with {spec}", kind


def refusals(ctx, n):
    work = os.path.join(ctx.work, "refuse")
    os.makedirs(work, exist_ok=True)
    jobs, info = [], {}
    cs = gen.make(padding.GENS, ctx.seed, n, fam=21)
    for i, c in enumerate(cs):
        w = wrong(np.random.default_rng([ctx.seed, 2020, i]), c)
        if w is None:
            continue
        f = os.path.join(work, f"w{i}.onnx")
        open(f, "wb").write(w[0].encode())
        for s in (True, False):
            jid = f"{i}{'s' if s else 'n'}"
            jobs.append(dict(id=jid, onnx=f, out=os.path.join(work, jid), simplify=s))
            info[jid] = (w, s, f)
    res = e2e.hgen(ctx.built.exes["hgen"], "gen", jobs, work)
    for jid, (w, s, f) in info.items():
        r = res[jid]
        ctx.evaluations += 1
        ctx.counts["refusals_" + w[2]] += 1
        ctx.note("refuse " + jid + w[1], f"must be refused: {w[1]}")
        if r.get("ok"):
            ctx.violation(f"[accepted] {w[1]} (simplify {s}) was imported and generated", "", {"model.onnx": (f,)})
        elif "overflow" in str(r.get("msg")):
            ctx.violation(f"[overflow] {w[1]} (simplify {s}): {str(r.get('msg'))[:200]}", str(r.get("msg")), {"model.onnx": (f,)})


def run(ctx):
    famcheck.run(ctx, [("padding", 1.0, 20)], 2200, 20000)
    refusals(ctx, ctx.pick(1600, 16000))
    ctx.rule += " Plus models with padding specifications ONNX does not allow, which have to be refused."
