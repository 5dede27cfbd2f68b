from .. import famcheck


def run(ctx):
    famcheck.run(ctx, [("sampling", 1.0, 22)], 1200, 20000)
    ctx.rule = ("Random models of the operators that draw random numbers; each model measures its own thousands of samples (mean, variance, a quantile, bounds, type and shape, difference from another node's samples) and compares "
                "the measurement with the declared distribution within six standard errors, so that its outputs are determined; every program is compiled and executed, with and without simplification. "
                "Non-trivial: the model produced at least one output element and is byte-wise distinct.")
