from .. import famcheck


def run(ctx):
    famcheck.run(ctx, [("shapes", 1.0, 6)], 5000, 50000)
