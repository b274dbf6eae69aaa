"""Operations that move, select or mark values."""
import fv
from checks.local import record_and_judge


def check(ctx, groups, quick, thorough):
    name = "MCCore" if ctx.quick else "MCCoreBig"
    ctx.add_model(fv.model_check("MCCore", name), name)
    record_and_judge(ctx, [("core_%d" % g, ["core.cc"], ["-DGROUP=%d" % g])
                           for g in groups], quick, thorough, "CoreTrace")


def p12(ctx):
    check(ctx, [0, 1], 4000, 60000)


def p13(ctx):
    check(ctx, [5], 5000, 60000)


def p14(ctx):
    check(ctx, [2, 3], 4000, 60000)


def p15(ctx):
    check(ctx, [4], 6000, 60000)


def p20(ctx):
    name = "MCContainers" if ctx.quick else "MCContainersBig"
    ctx.add_model(fv.model_check("MCContainers", name), name)
    record_and_judge(ctx, [("containers_%d" % g, ["containers.cc"],
                            ["-DGROUP=%d" % g]) for g in range(3)],
                     5000, 60000, "ContainersTrace", ["core", "feature"])


def p28(ctx):
    name = "MCErrors" if ctx.quick else "MCErrorsBig"
    ctx.add_model(fv.model_check("MCErrors", name), name)
    record_and_judge(ctx, [("errors", ["errors.cc"], [])], 12000, 200000,
                     "ErrorsTrace", ["core"])
