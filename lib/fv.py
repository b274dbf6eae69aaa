"""Shared machinery of the checks: building harnesses from /repo's working
tree, running TLC, judging recordings, writing evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FERN_REPO", "/repo")
SRC = os.path.join(REPO, "source")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
GEN = os.path.join(BUILD, "generated")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = 8


class ToolError(Exception):
    """The check itself failed: no verdict."""


def sh(cmd, timeout=None, cwd=None, env=None, check=False):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, cwd=cwd, env=env)
    except subprocess.TimeoutExpired as e:
        raise ToolError("timeout: %s" % " ".join(cmd[:3])) from e
    out = p.stdout.decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise ToolError("%s: exit %d\n%s" % (" ".join(cmd), p.returncode,
                                             out[-6000:]))
    return p.returncode, out


# --- Building -------------------------------------------------------------
LIBS = {
    # name: (source globs, extra flags)
    "core": (["fern/core/*.cc"], []),
    "feature": (["fern/feature/core/*.cc"], []),
    "algorithm": (["fern/algorithm/core/*.cc", "fern/algorithm/policy/*.cc"],
                  []),
    "io_core": (["fern/io/core/*.cc"], []),
    "io_gdal": (["fern/io/gdal/*.cc"], ["@gdal"]),
    "io_gpx": (["fern/io/gpx/*.cc"], ["@xerces-c"]),
    "io_netcdf": (["fern/io/netcdf/core/*.cc",
                   "fern/io/netcdf/coards/*.cc"], ["@netcdf"]),
    "ast": (["fern/language/ast/core/*.cc"], ["@lang"]),
    "ast_visitor": (["fern/language/ast/visitor/*.cc"], ["@lang"]),
    "ast_xml": (["fern/language/ast/xml/*.cc"], ["@lang"]),
    "interpreter": (["fern/language/interpreter/*.cc",
                     "fern/language/io/core/dataset.cc"], ["@lang"]),
    "lang_io_core": (["fern/language/io/core/*.cc",
                      "fern/language/io/drivers.cc"], ["@lang"]),
    "lang_io_fern": (["fern/language/io/fern/*.cc"], ["@lang", "@hdf5"]),
    "exchange": (["fern/language/operation/std/read.cc",
                  "fern/language/operation/std/write.cc",
                  "fern/language/interpreter/data_s*.cc",
                  "fern/language/interpreter/dataset_s*.cc"], ["@lang"]),
    "lang_io_gdal": (["fern/language/io/gdal/*.cc",
                      "fern/language/io/io_client.cc"],
                     ["@lang", "@gdal", "@hdf5"]),
    "command": (["fern/language/command/*.cc",
                 "fern/language/compiler/*.cc"], ["@lang", "@gdal", "@hdf5"]),
    "uncertainty": (["fern/language/uncertainty/*.cc"], ["@lang"]),
    "lang_feature": (["fern/language/feature/core/*.cc",
                      "fern/language/feature/visitor/*.cc"], ["@lang"]),
    "operation": (["fern/language/operation/core/*.cc"], ["@lang"]),
    "operation_xml": (["fern/language/operation/xml/*.cc"], ["@lang"]),
    "uncertml2": (["fern/language/io/uncertml2/*.cc"], ["@lang"]),
    "bindings": (["fern/python/feature/masked_raster.cc",
                  "fern/python/algorithm/algebra/elementary/*.cc",
                  "fern/python/algorithm/core/*.cc",
                  "fern/python/algorithm/space/focal/*.cc",
                  "fern/python/algorithm/*.cc",
                  "fern/python/io/gdal.cc"], ["@python", "@gdal"]),
}
EXCLUDE = {"stopwatch.cc", "fern.cc", "python_extension.cc"}
GENERATED = {
    # library: (directory, xsd name, xsdcxx options)
    "ast_xml": ("language/ast/xml", "syntax_tree",
                ["http://www.geoneric.eu/fern=fern::language"], []),
    "operation_xml": ("language/operation/xml", "operation",
                      ["http://www.geoneric.eu/fern=fern::language"], []),
    "uncertml2": ("language/io/uncertml2", "uncertml2",
                  ["http://www.uncertml.org/2.0=uncertml2"],
                  ["--generate-polymorphic"]),
}
TREES = {
    # library: [(directory, xsd name, namespace map)]
    "io_gpx": [("io/gpx", "gpx-1.0",
                "http://www.topografix.com/GPX/1/0=gpx_1_0"),
               ("io/gpx", "gpx-1.1",
                "http://www.topografix.com/GPX/1/1=gpx_1_1")],
}


def pkg(name, what):
    if name == "gdal":
        rc, out = sh(["gdal-config", "--cflags" if what == "c" else "--libs"])
    elif name == "python":
        # The interpreter that the installed Boost.Python is for.
        if what != "c":
            libs = glob.glob("/usr/lib/*/libboost_python3*.so")
            m = re.search(r"libboost_python3(\d+)\.so$", libs[0]) if libs \
                else None
            if not m:
                raise ToolError("no Boost.Python")
            return ["-lboost_python3" + m.group(1), "-lpython3." + m.group(1)]
        rc, out = sh(["/usr/bin/python3-config", "--includes"])
    else:
        rc, out = sh(["pkg-config", "--cflags" if what == "c" else "--libs",
                      name])
    if rc != 0:
        raise ToolError("no %s: %s" % (name, out))
    return out.split()


def generate(libs):
    """Files the project's build generates."""
    d = os.path.join(GEN, "fern")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(SRC, "fern", "configure.h.in")
    text = open(src).read()
    values = {"Fern_COPYRIGHT": "2010-now Geoneric", "Fern_MAJOR_VERSION": "0",
              "Fern_MINOR_VERSION": "0", "Fern_PATCH_VERSION": "0",
              "Fern_PRE_RELEASE_VERSION": "-rc.1",
              "Fern_VERSION": "0.0.0-rc.1"}
    def sub(m):
        return values.get(m.group(1), "")
    text = re.sub(r"@(\w+)@", sub, text)
    text = re.sub(r"\$\{(\w+)\}", sub, text)
    text = re.sub(r"^#cmakedefine01\s+(\w+)", r"#define \1 0", text, flags=re.M)
    text = re.sub(r"^#cmakedefine\s+(\w+).*$", r"/* #undef \1 */", text,
                  flags=re.M)
    write_if_changed(os.path.join(d, "configure.h"), text)
    sources = []
    for lib in libs:
        if lib not in GENERATED:
            continue
        directory, name, maps, extra = GENERATED[lib]
        out = os.path.join(GEN, "fern", directory)
        os.makedirs(out, exist_ok=True)
        base = os.path.join(SRC, "fern", directory, name)
        stamp = hashlib.sha256(open(base + ".xsd", "rb").read() +
                               open(base + ".map.in", "rb").read()).hexdigest()
        target = os.path.join(out, name + "-pskel.cxx")
        mark = os.path.join(out, name + ".stamp")
        if not (os.path.exists(target) and os.path.exists(mark) and
                open(mark).read() == stamp):
            shutil.copy(base + ".map.in", os.path.join(out, name + ".map"))
            cmd = ["xsdcxx", "cxx-parser", "--std", "c++11", "--xml-parser",
                   "expat", "--type-map", os.path.join(out, name + ".map"),
                   "--output-dir", out]
            for m in maps:
                cmd += ["--namespace-map", m]
            sh(cmd + extra + [base + ".xsd"], check=True)
            open(mark, "w").write(stamp)
        sources.append(target)
    for lib in libs:
        for directory, name, namespace in TREES.get(lib, []):
            out = os.path.join(GEN, "fern", directory)
            os.makedirs(out, exist_ok=True)
            xsd = os.path.join(SRC, "fern", directory, name + ".xsd")
            stamp = hashlib.sha256(open(xsd, "rb").read()).hexdigest()
            target = os.path.join(out, name + ".cxx")
            mark = os.path.join(out, name + ".stamp")
            if not (os.path.exists(target) and os.path.exists(mark) and
                    open(mark).read() == stamp):
                sh(["xsdcxx", "cxx-tree", "--std", "c++11", "--output-dir",
                    out, "--namespace-map", namespace, xsd], check=True)
                open(mark, "w").write(stamp)
            sources.append(target)
    return sources


def write_if_changed(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def build(name, sources, libs=(), flags=(), plain=(), ldflags=(), opt="-O1"):
    """Build one program; see build_many."""
    return build_many([(name, sources, [])], libs, flags, plain, ldflags,
                      opt)[0]


def build_many(programs, libs=(), flags=(), plain=(), ldflags=(), opt="-O1"):
    """Build programs [(name, sources, defines)] from sources (paths in
    harness/, or absolute), the libs' sources (from /repo) and `plain` sources
    (without `flags`). Returns the paths of the executables. Whatever differs
    from the current tree is compiled anew."""
    generated = generate(libs)
    base = ["g++", "-std=c++17", "-g1", opt, "-I" + SRC, "-I" + GEN,
            "-I" + HARNESS]
    flags = list(flags)
    jobs = {}
    def add(directory, path, extra):
        directory = os.path.join(BUILD, "obj", directory)
        os.makedirs(directory, exist_ok=True)
        tag = hashlib.sha256((path + repr(extra) + opt).encode()).hexdigest()
        obj = os.path.join(directory,
                           os.path.basename(path) + "." + tag[:8] + ".o")
        jobs[obj] = base + extra + ["-MD", "-MF", obj + ".d", "-c", path,
                                    "-o", obj]
        return obj
    lang = ["-include", "cassert", "-include", "string", "-include", "vector"]
    need = set()
    is_lang = any("@lang" in LIBS[l][1] for l in libs)
    for lib in libs:
        for e in LIBS[lib][1]:
            if e != "@lang":
                need.add(e[1:])
        if lib in GENERATED:
            need.add("expat")
    objects = []
    for name, sources, defines in programs:
        mine = []
        for path in sources:
            path = path if os.path.isabs(path) else os.path.join(HARNESS, path)
            extra = flags + list(defines) + (lang if is_lang else [])
            for n in sorted(need - {"expat"}):
                extra += pkg(n, "c")
            mine.append(add(name, path, extra))
        objects.append(mine)
    common = []
    for lib in libs:
        patterns, extra = LIBS[lib]
        x = []
        for e in extra:
            x += lang if e == "@lang" else pkg(e[1:], "c")
        for pattern in patterns:
            for path in sorted(glob.glob(os.path.join(SRC, pattern))):
                if os.path.basename(path) not in EXCLUDE:
                    common.append(add("lib", path, flags + x))
    for path in generated:
        common.append(add("lib", path, lang))
    for path in plain:
        common.append(add("lib", os.path.join(HARNESS, path), []))

    common = list(dict.fromkeys(common))

    def compile_one(job):
        obj, cmd = job
        key = obj + ".key"
        if os.path.exists(obj) and os.path.exists(key) and \
                open(key).read() == digest(obj + ".d", cmd):
            return None
        rc, out = sh(cmd)
        if rc != 0:
            return "%s\n%s" % (" ".join(cmd), out[-8000:])
        with open(key, "w") as f:
            f.write(digest(obj + ".d", cmd))
        return None
    with ThreadPoolExecutor(NCPU) as pool:
        errors = [e for e in pool.map(compile_one, jobs.items()) if e]
    if errors:
        raise ToolError("compile error\n" + errors[0])
    link = []
    for n in sorted(need):
        link += ["-lexpat"] if n == "expat" else pkg(n, "l")
    result = []
    for (name, _, _), mine in zip(programs, objects):
        exe = os.path.join(BUILD, "bin", name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        sh(["g++"] + [f for f in flags if f.startswith("-fsanitize=address")] +
           ["-o", exe] + mine + common + list(ldflags) + link +
           ["-lpthread", "-ldl"], check=True)
        result.append(exe)
    return result


def digest(depfile, cmd):
    h = hashlib.sha256(repr(cmd).encode())
    text = open(depfile).read().replace("\\\n", " ")
    for path in sorted(set(text.split(":", 1)[1].split())):
        if path.startswith("/usr/"):
            h.update(path.encode())
            continue
        try:
            h.update(open(path, "rb").read())
        except OSError:
            return ""
    return h.hexdigest()


# --- TLC ------------------------------------------------------------------
class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        self.generated, self.distinct = (
            [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0))
        self.ok = rc == 0 and "Model checking completed. No error" in out
        self.violated = bool(re.search(
            r"Invariant \S+ is violated|Temporal properties were violated|"
            r"Action property \S+ .*is violated|Deadlock reached|"
            r"is violated by the initial state", out))


def tlc(module, cfg=None, workers=NCPU, timeout=600, env=None, heap="4g",
        jvm=(), args=(), workdir=None):
    """Run TLC on spec/<module>.tla. Works in a directory of its own."""
    name = cfg or module
    work = workdir or os.path.join(BUILD, "tlc", "%s-%d" % (name, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in glob.glob(os.path.join(SPEC, "*.tla")) + \
            glob.glob(os.path.join(SPEC, "*.cfg")):
        shutil.copy(f, work)
    e = dict(os.environ)
    e.update(env or {})
    start = time.time()
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + work, *jvm, "-cp",
           JARS, "tlc2.TLC", "-config", name + ".cfg", "-workers",
           str(workers), "-noTE", "-metadir", os.path.join(work, "states"),
           *args, module + ".tla"]
    try:
        rc, out = sh(cmd, timeout=timeout, cwd=work, env=e)
    finally:
        shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    shutil.rmtree(work, ignore_errors=True)
    return TlcResult(rc, out, time.time() - start)


def model_check(module, cfg=None, **kw):
    """Check a model whose outcome does not depend on the code: it must pass."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise ToolError("model %s failed:\n%s" % (cfg or module, r.out[-5000:]))
    return r


# --- One run of a check -----------------------------------------------------
class Context:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.start = time.time()
        self.coverage = {"states": 0, "transitions": 0,
                         "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []      # (summary, replay path)
        self.known_seen = {}
        self.level = "model_checking"
        self.known = load_known(pid)
        self.work = os.path.join(BUILD, "run", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)

    @property
    def quick(self):
        return self.tier == "quick"

    def add_model(self, r, name):
        self.coverage["states"] += r.distinct
        self.coverage["transitions"] += r.generated
        self.coverage.setdefault("models", {})[name] = {
            "distinct_states": r.distinct, "states_generated": r.generated,
            "wall_s": round(r.wall, 1)}

    def sample(self, x, limit=6):
        if len(self.coverage["samples"]) < limit:
            self.coverage["samples"].append(x)

    def violation(self, key, summary, payload):
        """A rejection that a re-run repeated. `key` identifies it for the
        known findings."""
        for pattern, text in self.known:
            if re.fullmatch(pattern, key):
                self.known_seen[text] = self.known_seen.get(text, 0) + 1
                return
        directory = os.path.join(BUILD, "replay")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory, "%s-%d.json" % (
            self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "key": key, "summary": summary,
                       "seed": self.seed, "tier": self.tier,
                       "payload": payload}, f, indent=1, default=str)
        self.violations.append((summary, path))

    def finish(self):
        for text, n in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        evidence = {"property": self.pid, "tier": self.tier, "seed": self.seed,
                    "level": self.level, "coverage": self.coverage,
                    "assumptions": self.assumptions,
                    "wall_s": round(time.time() - self.start, 2),
                    "violations": len(self.violations)}
        directory = os.path.join(VERIF, "evidence")
        os.makedirs(directory, exist_ok=True)
        with open(os.path.join(directory, self.pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for summary, path in self.violations[:20]:
            print("  " + summary)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not self.violations:
            print("OK property=%s tier=%s wall=%.1fs" % (
                self.pid, self.tier, time.time() - self.start))
        return 1 if self.violations else 0


def load_known(pid):
    """KNOWN_FINDINGS lines: `known: property=<id> key=<regex> <text>`."""
    result = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                result.append((m.group(2), m.group(3)))
    return result


# --- Judging a stream of independent events with TLC ------------------------
def numbers(text):
    return [int(x) for x in re.findall(r"\d+", text)]


def judge(ctx, module, events, shards=NCPU, timeout=700, heap="2g"):
    """Let spec/<module>.tla judge every event. The module has a variable l
    (position) and bad (indices of events it rejects) and prints, at the end
    of a shard, VERDICT. Returns the indices (from 0) of rejected events."""
    if not events:
        raise ToolError("no events for " + module)
    shards = max(1, min(shards, len(events) // 50 + 1))
    chunks = [[] for _ in range(shards)]
    for i, event in enumerate(events):
        chunks[i % shards].append((i, event))
    def run(k, events):
        path = os.path.join(ctx.work, "%s-%d.ndjson" % (module, k))
        with open(path, "w") as f:
            for _, event in events:
                f.write(event if isinstance(event, str) else json.dumps(event))
                f.write("\n")
        r = tlc(module, workers=1, timeout=timeout, heap=heap,
                env={"TRACE": path, "JAVA_TOOL_OPTIONS": ""},
                jvm=["-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4"],
                workdir=os.path.join(ctx.work, "tlc-%s-%d" % (module, k)))
        os.remove(path)
        return r
    def one(k):
        """(rejected, number judged, states, transitions)"""
        todo, found, judged, states, transitions = chunks[k], [], 0, 0, 0
        for _ in range(5):
            r = run(k, todo)
            states += r.distinct
            transitions += r.generated
            m = re.search(r'<<\s*"VERDICT",\s*(\d+),\s*\{([\d,\s]*)\}\s*>>',
                          r.out)
            if m and r.ok and int(m.group(1)) == len(todo):
                found += [todo[x - 1][0] for x in numbers(m.group(2))]
                judged += len(todo)
                break
            # An event may be so wild that what the specification says about
            # it has no value: not one that it allows. The events before it
            # have been judged.
            at = re.findall(r"^/\\ l = (\d+)$", r.out, re.M)
            bad = re.findall(r"^/\\ bad = \{([\d,\s]*)\}$", r.out, re.M)
            if not at or len(at) != len(bad) or "OutOfMemory" in r.out or \
                    "occurred when TLC was evaluating" not in r.out:
                raise ToolError("trace model %s failed:\n%s" % (
                    module, r.out[-5000:]))
            n = int(at[-1])
            found += [todo[x - 1][0] for x in numbers(bad[-1])] + [todo[n][0]]
            judged += n + 1
            todo = todo[n + 1:]
            if not todo:
                break
        return found, judged, states, transitions
    with ThreadPoolExecutor(shards) as pool:
        results = list(pool.map(one, range(shards)))
    rejected = []
    for found, judged, states, transitions in results:
        rejected += found
        ctx.coverage["states"] += states
        ctx.coverage["transitions"] += transitions
        ctx.coverage["traces_validated_against_impl"] += judged
    return sorted(rejected)


# --- Judging a set of recorded behaviours with TLC ----------------------------
def judge_traces(ctx, module, traces, shards=NCPU, timeout=700, heap="3g"):
    """Every trace is a whole behaviour; the module accepts those for which
    the specification has a matching behaviour. It prints, per shard,
    ACCEPTED with the set of accepted trace numbers, and for the others how
    far it got. Returns {index: longest prefix} of rejected traces."""
    if not traces:
        raise ToolError("no traces for " + module)
    shards = max(1, min(shards, len(traces) // 20 + 1))
    chunks = [list(range(k, len(traces), shards)) for k in range(shards)]
    def one(k):
        path = os.path.join(ctx.work, "%s-%d.ndjson" % (module, k))
        with open(path, "w") as f:
            for i in chunks[k]:
                f.write(json.dumps(traces[i]) + "\n")
        r = tlc(module, workers=1, timeout=timeout, heap=heap,
                env={"TRACE": path, "JAVA_TOOL_OPTIONS": ""},
                jvm=["-XX:ParallelGCThreads=2",
                     "-Dtlc2.tool.queue.IStateQueue=StateDeque"],
                workdir=os.path.join(ctx.work, "tlc-%s-%d" % (module, k)))
        os.remove(path)
        return r
    with ThreadPoolExecutor(shards) as pool:
        results = list(pool.map(one, range(shards)))
    rejected = {}
    for k, r in enumerate(results):
        m = re.search(r'<<\s*"REACHED",\s*(<<[\d,\s]*>>)\s*>>', r.out)
        if not m or not r.ok:
            raise ToolError("trace model %s failed:\n%s" % (
                module, r.out[-5000:]))
        reached = [int(x) for x in re.findall(r"\d+", m.group(1))]
        if len(reached) != len(chunks[k]):
            raise ToolError("trace model %s: %d of %d" % (
                module, len(reached), len(chunks[k])))
        for i, n in zip(chunks[k], reached):
            if n < len(traces[i]["events"]):
                rejected[i] = n
        ctx.coverage["states"] += r.distinct
        ctx.coverage["transitions"] += r.generated
    ctx.coverage["traces_validated_against_impl"] += len(traces)
    return rejected


# --- Recording independent events -------------------------------------------
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=0:"
        "hard_rss_limit_mb=3000:"
        "handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0"}


def record(exe, seed, first, last, out, env=None):
    """Events first..last-1 as lines, one for each."""
    e = dict(os.environ)
    e.update(ASAN)
    e.update(env or {})
    if os.path.exists(out):
        os.remove(out)
    lines, crashes, hangs = [], 0, 0
    while first + len(lines) < last:
        start = time.time()
        rc, text = sh([exe, str(seed), str(first + len(lines)), str(last),
                       out], timeout=800, env=e)
        # Lines are appended: the ones of this run follow the previous ones.
        with open(out, "rb") as f:
            lines = f.read().decode().splitlines()
        if rc == 0:
            break
        crashes += 1
        # The driver gives each event a minute.
        hangs += time.time() - start > 59
        if rc != 70 or crashes > 40 or hangs > 2:
            if rc == 70 and lines:
                return lines
            raise ToolError("%s: exit %d\n%s" % (exe, rc, text[-3000:]))
    os.remove(out)
    return lines


def record_many(ctx, exe, n, env=None, parts=NCPU, base=0):
    """n events, in parallel. Returns [(index, line)]."""
    size = (n + parts - 1) // parts
    def one(k):
        first, last = base + k * size, base + min(n, (k + 1) * size)
        if first >= last:
            return []
        out = os.path.join(ctx.work, "%s-%d.rec" % (os.path.basename(exe), k))
        lines = record(exe, ctx.seed, first, last, out, env)
        return list(zip(range(first, last), lines))
    with ThreadPoolExecutor(parts) as pool:
        return [x for part in pool.map(one, range(parts)) for x in part]


def judge_events(ctx, module, recordings, key=None, timeout=700):
    """recordings: [(exe, env, [(index, line)])]. Every event is judged by the
    module; a rejected one is recorded again, and counts if it is rejected
    again."""
    flat = [(exe, env, i, line) for exe, env, lines in recordings
            for i, line in lines]
    bad = judge(ctx, module, [line for _, _, _, line in flat], timeout=timeout)
    if not bad:
        return
    again = []
    start = time.time()
    for b in bad[:: max(1, len(bad) // 60)]:
        if again and time.time() - start > 200:
            break
        exe, env, i, line = flat[b]
        out = os.path.join(ctx.work, "again.rec")
        for _ in range(3):
            # Threads may make a difference.
            lines = record(exe, ctx.seed, i, i + 1, out, env)
            again.append((exe, env, i, line, lines[0]))
    n = ctx.coverage["traces_validated_against_impl"]
    bad2 = judge(ctx, module, [x[4] for x in again])
    ctx.coverage["traces_validated_against_impl"] = n
    seen = set()
    for b in bad2:
        exe, env, i, line, second = again[b]
        if (exe, i) in seen:
            continue
        seen.add((exe, i))
        event = json.loads(second)
        k = key(event) if key else event.get("op", "?")
        ctx.violation(k, "%s: event %d (%s) is not one the specification "
                      "allows: %s" % (os.path.basename(exe), i, k,
                                      second[:400]),
                      {"program": os.path.basename(exe), "env": env or {},
                       "seed": ctx.seed, "event": i, "recorded": event,
                       "module": module})
    if bad and not bad2:
        ctx.coverage["unrepeated_rejections"] = len(bad)


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py <property> [quick|thorough]")
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Context(pid, tier, seed)
    try:
        checks[pid](ctx)
        return ctx.finish()
    except ToolError as e:
        print("TOOL ERROR property=%s\n%s" % (pid, e))
        return 3
