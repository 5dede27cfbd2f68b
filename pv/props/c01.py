from .. import famcheck


def run(ctx):
    famcheck.run(ctx, [("elementwise", 1.0, 1)], 4500, 40000)
