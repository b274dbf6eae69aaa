"""P01-P04: the thread pool and its queue."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import fv

TSAN = ["-fsanitize=thread"]


def build_pool():
    return fv.build("pool", ["pool.cc"], ["core"], flags=TSAN,
                    plain=["ctl.cc", "tsan_points.cc"], ldflags=["-rdynamic"])


def drive(ctx, jobs):
    """jobs: argument lists (the output file is inserted). Returns
    (traces, statistics, arguments per trace)."""
    def one(k):
        exe, args = jobs[k]
        out = os.path.join(ctx.work, "drive-%d.ndjson" % k)
        a = [x if x != "OUT" else out for x in args]
        rc, text = fv.sh([exe] + a, timeout=500)
        if rc != 0:
            raise fv.ToolError("driver %s: exit %d %s" % (a, rc, text[-2000:]))
        traces = [json.loads(l) for l in open(out)]
        os.remove(out)
        return traces, text
    with ThreadPoolExecutor(fv.NCPU) as pool:
        results = list(pool.map(one, range(len(jobs))))
    return results


def shape(trace):
    return json.dumps([trace[k] for k in sorted(trace) if k != "run"])


def judged_runs(ctx, module, jobs, describe):
    """Run the jobs, let TLC judge the recordings, repeat what it rejects."""
    results = drive(ctx, jobs)
    traces, origin, seen, runs = [], [], set(), 0
    for k, (found, text) in enumerate(results):
        for part in text.split():
            if part.startswith("runs="):
                runs += int(part[5:])
        for t in found:
            s = shape(t)
            if s not in seen:
                seen.add(s)
                traces.append(t)
                origin.append(k)
    rejected = fv.judge_traces(ctx, module, traces)
    ctx.coverage["runs"] = ctx.coverage.get("runs", 0) + runs
    ctx.coverage["distinct_recordings"] = \
        ctx.coverage.get("distinct_recordings", 0) + len(traces)
    for t in traces[:: max(1, len(traces) // 3)][:3]:
        ctx.sample(describe(t))
    if rejected:
        again = sorted({origin[i] for i in rejected})[:2]
        for k in again:
            found = drive(ctx, [jobs[k]])[0][0]
            bad = fv.judge_traces(ctx, module, found)
            for i in sorted(bad)[:3]:
                t = found[i]
                n = bad[i]
                event = t["events"][n]
                ctx.violation(
                    "%s:%s:%s" % (t["family"], event["e"], event["r"]),
                    "%s: the specification has no behaviour that matches the "
                    "recorded execution beyond event %d: %s" % (
                        describe(t), n + 1, json.dumps(event)),
                    {"driver": [os.path.basename(jobs[k][0])] + jobs[k][1],
                     "module": module, "matched_events": n, "trace": t})
        if not ctx.violations:
            raise fv.ToolError("a rejection could not be repeated: %s" %
                               json.dumps(traces[sorted(rejected)[0]]))
    return traces


def describe_pool(t):
    return "scenario %s run %d: %d workers, %d tasks, %d events" % (
        t["family"], t["run"], t["workers"], t["tasks"], len(t["events"]))


def pool_check(ctx, families, systematic, nr_quick, nr_thorough):
    exe = build_pool()
    if ctx.quick:
        ctx.add_model(fv.model_check("ThreadPool", "MCThreadPool"),
                      "ThreadPool 2 tasks, 2 workers, 2 submitters")
    else:
        ctx.add_model(fv.model_check("ThreadPool", "MCThreadPoolBig"),
                      "ThreadPool 3 tasks, 2 workers, 2 submitters")
    # The model is sensitive: without time-outs the lost wake-up is found.
    r = fv.tlc("ThreadPool", "MCThreadPoolNoTimeout")
    if not r.violated:
        raise fv.ToolError("the model does not see the lost wake-up\n" +
                           r.out[-3000:])
    nr = nr_quick if ctx.quick else nr_thorough
    jobs = [(exe, [",".join(families), str(nr // fv.NCPU),
                   str(ctx.seed * 100 + k), "OUT"]) for k in range(fv.NCPU)]
    for family, seed, bound in systematic:
        jobs.append((exe, [family, "dfs", str(seed), "OUT",
                           "1500" if ctx.quick else "20000",
                           str(bound if ctx.quick else bound + 1)]))
    judged_runs(ctx, "ExecutorTrace", jobs, describe_pool)
    ctx.assumptions += [
        "Threads are serialised; a schedule is a sequence of choices at "
        "synchronisation operations and (sampled) memory accesses.",
        "The platform's mutex, condition variable, thread and future "
        "primitives are replaced by a scheduler's model of them."]


def p01(ctx):
    pool_check(ctx, ["K1", "K2", "K3", "K6"],
               [("K1", 1, 2), ("K1", 4, 2), ("K3", 2, 1)], 8000, 60000)


def p02(ctx):
    pool_check(ctx, ["K4", "K5", "K1", "K3"],
               [("K4", 1, 2), ("K5", 1, 2), ("K5", 2, 2)], 6000, 60000)


def p03(ctx):
    pool_check(ctx, ["K2", "K7", "K8", "K6"],
               [("K2", 1, 2), ("K7", 3, 2), ("K2", 3, 2)], 8000, 60000)


def build_queue():
    return fv.build("queue", ["queue.cc"], [], flags=TSAN,
                    plain=["ctl.cc", "tsan_points.cc"], ldflags=["-rdynamic"])


def p04(ctx):
    exe = build_queue()
    name = "MCLockedQueue" if ctx.quick else "MCLockedQueueBig"
    ctx.add_model(fv.model_check("LockedQueue", name), name)
    r = fv.tlc("LockedQueue", "MCLockedQueueNoLock")
    if not r.violated:
        raise fv.ToolError("the model does not need its mutex\n" + r.out[-3000:])
    nr = 8000 if ctx.quick else 60000
    jobs = [(exe, ["Q1,Q2,Q3,Q4,Q4", str(nr // fv.NCPU), str(ctx.seed * 100 + k),
                   "OUT"]) for k in range(fv.NCPU)]
    for seed in (1, 2, 3):
        jobs.append((exe, ["Q1", "dfs", str(seed), "OUT",
                           "1000" if ctx.quick else "20000", "3"]))
    judged_runs(ctx, "SharedQueueTrace", jobs, lambda t:
                "scenario %s run %d: %d threads, %d events" % (
                    t["family"], t["run"], t["threads"], len(t["events"])))
    ctx.assumptions += [
        "Threads are serialised; scheduling points are synchronisation "
        "operations and (sampled) memory accesses."]
