"""Local operations: one cell of the result depends on one cell of each
argument."""
import fv

ALGORITHM = ["core", "feature", "algorithm"]
FLAGS = ["-fsanitize=address"]


def arith_programs():
    ops = ["add", "subtract", "multiply", "divide"]
    programs = [("arith_%s_%d" % (op, half), ["arith.cc"],
                 ["-DIS_" + op.upper(), "-DHALF=%d" % half])
                for op in ops for half in (0, 1)]
    programs.append(("arith_absolute", ["arith.cc"], ["-DIS_ABSOLUTE",
                                                      "-DHALF=0"]))
    return programs


def p08(ctx):
    exes = fv.build_many(arith_programs(), ALGORITHM, FLAGS, opt="-O0")
    n = 600 if ctx.quick else 6000
    recordings = []
    for exe in exes:
        recordings.append((exe, None, fv.record_many(ctx, exe, n)))
        if exe.endswith("_0"):
            env = {"BLOCKS": "1"}
            recordings.append((exe, env, fv.record_many(ctx, exe, 1024, env)))
    judge(ctx, "LocalTrace", recordings)


def p07(ctx):
    record_and_judge(ctx, [("shapes_%d" % g, ["shapes.cc"], ["-DGROUP=%d" % g])
                           for g in range(3)], 1750, 20000)


def p09(ctx):
    record_and_judge(ctx, [("cells_%d" % g, ["cells.cc"], ["-DGROUP=%d" % g])
                           for g in range(4)], 1200, 15000)


def record_and_judge(ctx, programs, quick, thorough, module="LocalTrace",
                     libs=ALGORITHM, flags=FLAGS, ldflags=()):
    exes = fv.build_many(programs, libs, flags, ldflags=ldflags, opt="-O0")
    n = quick if ctx.quick else thorough
    recordings = [(exe, None, fv.record_many(ctx, exe, n)) for exe in exes]
    judge(ctx, module, recordings)


def judge(ctx, module, recordings):
    for exe, env, lines in recordings:
        for _, line in lines[:1]:
            ctx.sample(line[:300])
    fv.judge_events(ctx, module, recordings, key)


def key(e):
    return ":".join(str(e[x]) for x in ("op", "k1", "k2", "kr") if x in e)
