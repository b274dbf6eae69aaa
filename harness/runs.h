// Common part of the programs that record executions under the controlled
// scheduler: PROGRAM FAMILIES NR_RUNS SEED OUT.ndjson
//            PROGRAM FAMILY dfs SEED OUT.ndjson MAX_RUNS BOUND
// Every run is one schedule of one scenario; its observable events are
// recorded. Distinct recordings are written, one JSON object per line.
// The including file defines scenario().
#pragma once
#include "ctl.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
namespace {

int const max_events = 400;
struct Event { char e[8]; char r[12]; int t, w, v, now; };
struct Log {
    int run;                 // run being executed
    int nr_events;
    int wake;
    char head[4000];          // JSON members that describe the scenario
    char family[8];
    int steps;
    int nr_choices;
    struct { short nr, chosen, current; } choices[4096];
    Event events[max_events];
};
Log* sh = nullptr;

__attribute__((no_sanitize("thread")))
void log(char const* e, int t, int w = -1, char const* r = "", int v = 0)
{
    if(sh->nr_events >= max_events) { _exit(3); }
    Event& event = sh->events[sh->nr_events];
    strncpy(event.e, e, 7); strncpy(event.r, r, 11);
    event.t = t; event.w = w; event.v = v;
    event.now = static_cast<int>(sched::now_ms());
    ++sh->nr_events;
}

void stuck(char const* what, std::string const& detail)
{
    (void)detail;
    log("STUCK", 0, -1, what);
    _exit(42);
}

std::uint64_t rng;
unsigned rnd(unsigned n)
{
    std::uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return static_cast<unsigned>((z ^ (z >> 31)) % n);
}


// Executes one scenario. Everything that is random has been drawn before it
// starts the scheduler; it calls sched::start(options) and sched::stop().
void scenario(std::string const& family, sched::Options const& options,
    bool small);

// Called once, at the start.
void prepare();

void set_head(std::string const& s)
{
    if(s.size() >= sizeof(sh->head)) { _exit(3); }
    strcpy(sh->head, s.c_str());
}

// --- Runs -----------------------------------------------------------------
std::vector<std::string> families;
std::uint64_t seed0;
bool dfs = false;

void run_one(int run, std::vector<int> const& prefix)
{
    sh->nr_events = 0; sh->nr_choices = 0; sh->run = run;
    sched::Options o;
    std::string const family = families[run % families.size()];
    if(dfs) {
        rng = seed0 * 77 + 5;
        o.mode = sched::replay; o.prefix = prefix; o.seed = seed0;
        sched::access_rate = 0;
    }
    else {
        rng = seed0 * 1000003ull + run * 7919ull;
        rnd(2);
        // Rather many schedules for each scenario than the other way around.
        std::uint64_t const keep = rng;
        unsigned const m = rnd(10);
        o.mode = m < 5 ? sched::uniform : m < 8 ? sched::pct :
            m == 8 ? sched::main_first : sched::main_last;
        o.seed = seed0 * 31 + run;
        o.horizon = rnd(2) ? 60 : 200;
        // Early time-outs and spurious wake-ups are legal behaviour of the
        // platform; not where the trace specification judges latencies.
        if(family != "K5" && rnd(3) == 0) {
            o.p_spurious = 0.02; o.p_timeout = 0.02;
        }
        unsigned const a = rnd(4);
        sched::access_rate = a == 0 ? 0 : a == 1 ? 2000 : a == 2 ? 12000 : 40000;
        sched::seed_accesses(static_cast<std::uint32_t>(rnd(1000000) + 1));
        (void)keep;
    }
    sh->wake = o.p_timeout == 0 && o.p_spurious == 0;
    strncpy(sh->family, family.c_str(), 7);
    sh->head[0] = 0;
    scenario(family, o, dfs);
    sh->steps = sched::steps();
    if(dfs) {
        auto const& c = sched::choices();
        sh->nr_choices = std::min<int>(c.size(), 4096);
        for(int i = 0; i < sh->nr_choices; ++i) {
            sh->choices[i].nr = c[i].nr;
            sh->choices[i].chosen = c[i].chosen;
            sh->choices[i].current = c[i].current;
        }
    }
}

std::unordered_set<std::string> seen;
long nr_distinct = 0, nr_runs = 0, nr_stuck = 0, nr_crash = 0, max_steps = 0;

// What a program adds to the scenario, and in front of the events.
void (*extra)(std::string& head, std::string& events) = nullptr;

void emit(FILE* out, char const* crash)
{
    ++nr_runs;
    std::string more_head, more_events;
    if(extra) { extra(more_head, more_events); }
    max_steps = std::max<long>(max_steps, sh->steps);
    std::string s = "\"family\":\"" + std::string(sh->family) + "\"," +
        sh->head + more_head + ",\"wake\":" + (sh->wake ? "true" : "false") +
        ",\"events\":[" + more_events;
    bool const some = !more_events.empty();
    for(int i = 0; i < sh->nr_events; ++i) {
        auto const& e = sh->events[i];
        s += (i || some ? "," : "");
        s += "{\"e\":\"" + std::string(e.e) + "\",\"t\":" + std::to_string(e.t) +
            ",\"w\":" + std::to_string(e.w) + ",\"r\":\"" + e.r + "\",\"v\":" +
            std::to_string(e.v) + ",\"now\":" + std::to_string(e.now) + "}";
        if(strcmp(e.e, "STUCK") == 0) { ++nr_stuck; }
    }
    if(crash) {
        ++nr_crash;
        s += std::string(sh->nr_events || some ? "," : "") +
            "{\"e\":\"CRASH\",\"t\":0,\"w\":0,\"r\":\"" + crash +
            "\",\"v\":0,\"now\":0}";
    }
    s += "]";
    if(seen.insert(s).second) {
        ++nr_distinct;
        fprintf(out, "{\"run\":%d,%s}\n", sh->run, s.c_str());
    }
}

// Executes runs [from, to) in a child; the parent reads each recording. The
// child and the parent alternate by means of a pipe pair.
int main_random(int nr, FILE* out)
{
    int run = 0, nr_hang = 0;
    while(run < nr && nr_stuck + nr_crash < 40) {
        int go[2], done[2];
        if(pipe(go) || pipe(done)) { return 3; }
        pid_t const pid = fork();
        if(pid == 0) {
            close(go[1]); close(done[0]);
            char c;
            for(int r = run; r < nr; ++r) {
                run_one(r, {});
                if(write(done[1], "x", 1) != 1) { _exit(3); }
                if(read(go[0], &c, 1) != 1) { _exit(0); }
            }
            _exit(0);
        }
        close(go[0]); close(done[1]);
        while(run < nr) {
            // Wait for the child, at most 20 s per run.
            fd_set set; FD_ZERO(&set); FD_SET(done[0], &set);
            timeval limit{20, 0};
            char c;
            int const ready = select(done[0] + 1, &set, nullptr, nullptr, &limit);
            if(ready == 0) {
                kill(pid, SIGKILL); waitpid(pid, nullptr, 0);
                emit(out, "hang"); ++run;
                if(++nr_hang == 2) { nr = run; }
                break;
            }
            if(read(done[0], &c, 1) == 1) {
                emit(out, nullptr); ++run;
                if(write(go[1], "x", 1) != 1) { /* child is gone */ }
                continue;
            }
            int status = 0;
            waitpid(pid, &status, 0);
            if(WIFEXITED(status) && WEXITSTATUS(status) == 42) {
                emit(out, nullptr); ++run;
            }
            else if(WIFEXITED(status) && WEXITSTATUS(status) == 3) { return 3; }
            else {
                emit(out, "crash"); ++run;
            }
            break;
        }
        close(go[1]); close(done[0]);
        waitpid(pid, nullptr, WNOHANG);
    }
    return 0;
}

// Systematic: all schedules with at most `bound` preemptions, depth first.
int main_dfs(int max_runs, int bound, FILE* out)
{
    std::vector<std::vector<int>> stack(1);
    int run = 0;
    while(!stack.empty() && run < max_runs) {
        auto const prefix = stack.back();
        stack.pop_back();
        pid_t const pid = fork();
        if(pid == 0) { alarm(20); run_one(0, prefix); _exit(0); }
        int status = 0;
        waitpid(pid, &status, 0);
        if(WIFEXITED(status) && WEXITSTATUS(status) == 3) { return 3; }
        ++run;
        bool const ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
        emit(out, ok || (WIFEXITED(status) && WEXITSTATUS(status) == 42) ?
            nullptr : "crash");
        if(!ok) { continue; }
        int preemptions = 0;
        for(int k = 0; k < sh->nr_choices; ++k) {
            auto const& c = sh->choices[k];
            if(k >= static_cast<int>(prefix.size())) {
                for(int i = 1; i < c.nr; ++i) {
                    if(preemptions + c.current > bound) { break; }
                    std::vector<int> next;
                    for(int j = 0; j < k; ++j) {
                        next.push_back(sh->choices[j].chosen);
                    }
                    next.push_back(i);
                    stack.push_back(next);
                }
            }
            if(c.current && c.chosen != 0) { ++preemptions; }
        }
    }
    printf("dfs complete=%d left=%zu\n", stack.empty() ? 1 : 0, stack.size());
    return 0;
}

} // namespace

int main(int argc, char** argv)
{
    if(argc < 5) { return 3; }
    std::string list = argv[1];
    for(size_t i = 0; i < list.size(); ) {
        size_t j = list.find(',', i);
        if(j == std::string::npos) { j = list.size(); }
        families.push_back(list.substr(i, j - i));
        i = j + 1;
    }
    sh = static_cast<Log*>(mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sched::on_stuck = stuck;
    prepare();
    FILE* out = fopen(argv[4], "w");
    if(!out) { return 3; }
    seed0 = strtoull(argv[3], nullptr, 10);
    int result;
    if(strncmp(argv[2], "dfs", 3) == 0) {
        dfs = true;
        int const bound = argc > 6 ? atoi(argv[6]) : 2;
        result = main_dfs(atoi(argv[5]), bound, out);
    }
    else { result = main_random(atoi(argv[2]), out); }
    fclose(out);
    printf("runs=%ld distinct=%ld stuck=%ld crash=%ld max_steps=%ld\n", nr_runs,
        nr_distinct, nr_stuck, nr_crash, max_steps);
    return result;
}
