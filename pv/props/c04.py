from .. import famcheck


def run(ctx):
    famcheck.run(ctx, [("layers", 1.0, 4)], 4500, 40000)
