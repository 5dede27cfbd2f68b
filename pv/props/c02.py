from .. import famcheck


def run(ctx):
    famcheck.run(ctx, [("datamove", 1.0, 2)], 5000, 40000)
