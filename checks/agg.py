"""Operations that make one value of many, and accumulators."""
import fv
from checks.local import record_and_judge


def model(ctx):
    name = "MCAgg" if ctx.quick else "MCAggBig"
    ctx.add_model(fv.model_check("MCAgg", name), name)


def p10(ctx):
    model(ctx)
    record_and_judge(ctx, [("agg_%d" % g, ["agg.cc"], ["-DGROUP=%d" % g])
                           for g in range(4)], 4000, 50000, "AggTrace")


def p11(ctx):
    model(ctx)
    record_and_judge(ctx, [("acc_%d" % g, ["acc.cc"], ["-DGROUP=%d" % g])
                           for g in range(3)], 3000, 40000, "AccTrace")
