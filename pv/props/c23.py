from .. import famcheck


def run(ctx):
    famcheck.run(ctx, [("oldops", 1.0, 23)], 1500, 20000)
    ctx.rule = ("Random models at operator set versions 1 to 15 and 22 to 24: operators with the attributes, defaults and broadcasting of their old versions against values computed from the definition of that version, and the models of the "
                "other families at the newer and the just older versions; every generated program is compiled and executed, with and without simplification, and compared. A construct listed as refusable (string casts, the first Tile, "
                "Upsample, ...) may be refused instead, which is counted as refused. Non-trivial: the model produced at least one output element and is byte-wise distinct.")
