"""Algorithms that are performed by more than one thread."""
import fv
from checks.concurrency import judged_runs
from checks.local import record_and_judge


def p05(ctx):
    name = "MCPartition" if ctx.quick else "MCPartitionBig"
    ctx.add_model(fv.model_check("MCPartition", name), name)
    record_and_judge(ctx, [("split", ["split.cc"], [])], 9000, 150000,
                     "PartitionTrace")


def describe(t):
    return "scenario %s run %d of group %s: calls %s, %s workers, %d events" % (
        t["family"], t["run"], t["group"], t["kinds"], t["workers"],
        len(t["events"]))


def p06(ctx):
    name = "MCForkJoin" if ctx.quick else "MCForkJoinBig"
    ctx.add_model(fv.model_check("ForkJoin", name), name)
    # The model sees what goes wrong without waiting, or with a shared cell.
    for broken in ["MCForkJoinNoWait", "MCForkJoinShared"]:
        r = fv.tlc("ForkJoin", broken)
        if not r.violated:
            raise fv.ToolError(broken + " is not refuted\n" + r.out[-3000:])
    exes = fv.build_many(
        [("parallel%d" % g, ["parallel.cc"], ["-DGROUP=%d" % g])
         for g in range(3)], ["core", "feature", "algorithm"],
        flags=["-fsanitize=thread"],
        plain=["ctl.cc", "tsan_points.cc", "race.cc"], ldflags=["-rdynamic"])
    # Recordings of a group differ in length: as many runs as are worth it.
    runs = [350, 350, 60] if ctx.quick else [6000, 6000, 900]
    rounds = 1 if ctx.quick else 8
    for k in range(rounds):
        jobs = []
        for g, exe in enumerate(exes):
            for i in range(8):
                jobs.append((exe, ["S1,S2,S3", str(runs[g] // rounds),
                                   str(ctx.seed * 1000 + k * 8 + i), "OUT"]))
            for family, seed in [("S1", 1), ("S2", 2), ("S3", 3)]:
                jobs.append((exe, [family, "dfs", str(seed + 10 * k), "OUT",
                                   "60" if g == 2 else "250",
                                   "2" if ctx.quick else "3"]))
        judged_runs(ctx, "ParallelTrace", jobs, describe)
    ctx.assumptions += [
        "Threads are serialised; accesses by instrumented code (the library "
        "and the algorithms) are recorded, those in the C++ run-time library "
        "are not.",
        "The order that mutexes, condition variables, thread creation and "
        "joins, and atomics (according to their memory orders) impose is that "
        "of the scheduler's model of them."]
