from .. import famcheck


def run(ctx):
    famcheck.run(ctx, [("linalg", 1.0, 3)], 4000, 40000)
