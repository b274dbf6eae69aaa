"""Convolution, and the operations built on it."""
import fv
from checks.local import record_and_judge


def p18(ctx):
    name = "MCConvolve" if ctx.quick else "MCConvolveBig"
    ctx.add_model(fv.model_check("MCConvolve", name), name)
    record_and_judge(ctx, [("conv_%d" % g, ["conv.cc"], ["-DGROUP=%d" % g])
                           for g in range(4)], 1500, 20000, "ConvolveTrace")


def p19(ctx):
    record_and_judge(ctx, [("field_%d" % g, ["field.cc"], ["-DGROUP=%d" % g])
                           for g in range(2)], 4000, 60000, "FieldTrace")
