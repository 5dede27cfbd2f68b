from .. import famcheck


def run(ctx):
    famcheck.run(ctx, [("control", 1.0, 5)], 4000, 40000)
