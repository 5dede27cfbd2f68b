"""A check made of generator families whose models are run against the reference."""
import importlib
from . import gen, fixtures


def pins(ctx, mods):
    out = []
    ids = {k["id"] for k in ctx.known}
    for mod in mods:
        for kid, b in getattr(mod, "PINS", {}).items():
            if kid in ids:
                c = b()
                c.pin, c.gen = kid, "pin:" + kid
                out.append(c)
    return out


def run(ctx, fams, nq, nt, variants=("s", "n"), batch=1200):
    """fams: list of (module, share, family number)."""
    ctx.rule = ("Random models from the operator families below, one or two input sets each; every generated program is compiled and executed and each output compared with an "
                "independent numpy evaluation of the ONNX definition. Non-trivial: the model produced at least one output element and is byte-wise distinct.")
    mods = [importlib.import_module("pv.fam." + f) for f, _, _ in fams]
    pc = pins(ctx, mods)
    if pc:
        ctx.run_cases(pc, variants, name="pin")
    n = ctx.pick(nq, nt)
    for (f, share, num), mod in zip(fams, mods):
        cs = gen.make(mod.GENS, ctx.seed, int(n * share), fam=num)
        ctx.run_cases(cs, variants, name=f, batch=batch)
