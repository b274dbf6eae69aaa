// Executions of fern::ThreadPool under the controlled scheduler.
#include "runs.h"
#include "fern/core/thread_pool.h"
#include <memory>
#include <stdexcept>
#include <thread>

namespace {

// --- Scenario -------------------------------------------------------------
enum Kind { VALUE, VOID, MOVE, THROW };
struct Failure { int t; };
// Of a class that is derived from a standard one.
struct Derived: public std::runtime_error {
    int t;
    explicit Derived(int t): std::runtime_error("task"), t(t) {}
};

// Blocking primitive for task bodies.
struct Barrier {
    std::mutex m; std::condition_variable c; int count = 0, target = 0;
    void arrive_and_wait() {
        std::unique_lock<std::mutex> l(m);
        if(++count >= target) { c.notify_all(); }
        while(count < target) { c.wait(l); }
    }
    void open() { std::unique_lock<std::mutex> l(m); target = 0; c.notify_all(); }
    void wait() {
        std::unique_lock<std::mutex> l(m);
        while(count < target) { c.wait(l); }
    }
};

struct Spec {
    Kind kind = VALUE;
    int points = 0;           // scheduling points in the body
    int sleep_ms = 0;
    int barrier = -1;         // arrive and wait here
    int gate = -1;            // wait until opened
    std::vector<int> nested;  // submits these
};

struct World {
    std::vector<Spec> tasks;              // index 1...
    std::unique_ptr<Barrier[]> barriers;
    fern::ThreadPool* pool = nullptr;
    std::vector<std::future<int>> f_int;
    std::vector<std::future<void>> f_void;
    std::vector<std::future<std::unique_ptr<int>>> f_move;
};
World* world = nullptr;

void submit(int t);

void body(int t)
{
    log("S", t, sched::self());
    Spec const& s = world->tasks[t];
    for(int i = 0; i < s.points; ++i) { sched::point(); }
    if(s.sleep_ms > 0) {
        std::this_thread::sleep_for(std::chrono::milliseconds(s.sleep_ms));
    }
    for(int n: s.nested) { submit(n); }
    if(s.barrier >= 0) { world->barriers[s.barrier].arrive_and_wait(); }
    if(s.gate >= 0) { world->barriers[s.gate].wait(); }
    sched::point();
    log("E", t, sched::self());
    if(s.kind == THROW) {
        if(t % 2) { throw Failure{t}; }
        throw Derived(t);
    }
}

void submit(int t)
{
    Spec const& s = world->tasks[t];
    log("SC", t);
    switch(s.kind) {
        case VALUE: case THROW: {
            auto f = world->pool->submit([t]() { body(t); return t; });
            world->f_int[t] = std::move(f);
            break;
        }
        case VOID: {
            auto f = world->pool->submit([t]() { body(t); });
            world->f_void[t] = std::move(f);
            break;
        }
        case MOVE: {
            auto p = std::make_unique<int>(t);
            auto f = world->pool->submit([p = std::move(p)]() mutable {
                body(*p); return std::move(p); });
            world->f_move[t] = std::move(f);
            break;
        }
    }
    log("SR", t);
}

void get(int t)
{
    Spec const& s = world->tasks[t];
    try {
        int x = t;
        switch(s.kind) {
            case VALUE: case THROW:
                if(!world->f_int[t].valid()) { return; }
                x = world->f_int[t].get();
                break;
            case VOID:
                if(!world->f_void[t].valid()) { return; }
                world->f_void[t].get();
                break;
            case MOVE: {
                if(!world->f_move[t].valid()) { return; }
                auto p = world->f_move[t].get();
                x = p ? *p : -1;
                break;
            }
        }
        log("G", t, -1, "val", x);
    }
    catch(Failure const& e) { log("G", t, -1, "exc", e.t); }
    catch(Derived const& e) { log("G", t, -1, "exc", e.t); }
    catch(std::future_error const& e) {
        log("G", t, -1,
            e.code() == std::future_errc::broken_promise ? "broken" : "ferror", t);
    }
    catch(...) { log("G", t, -1, "other", t); }
}

void sleep_ms(int ms)
{
    std::this_thread::sleep_for(std::chrono::milliseconds(ms));
}

void setup(World& w, int nr_tasks, int nr_barriers = 0)
{
    w.tasks.resize(nr_tasks + 1);
    w.f_int.resize(nr_tasks + 1);
    w.f_void.resize(nr_tasks + 1);
    w.f_move.resize(nr_tasks + 1);
    w.barriers.reset(new Barrier[nr_barriers + 1]);
}

void random_kinds(World& w)
{
    for(auto& s: w.tasks) {
        s.kind = static_cast<Kind>(rnd(4));
        s.points = rnd(3);
        s.sleep_ms = rnd(5) == 0 ? 1 + rnd(40) : 0;
    }
}

// Run one scenario. Everything that is random has been drawn before the
// scheduler starts.
void prepare() {}

void scenario(std::string const& family, sched::Options const& options,
    bool small)
{
    World w;
    world = &w;
    int nr_workers = 1 + rnd(3);
    int nr_tasks = 1 + rnd(5);
    int submitters = 0, before = 0, between = 0;
    std::vector<int> main_tasks, early_gets;
    std::vector<std::vector<int>> other_tasks;
    bool get_before = false, burst = false, gate = false, other_get = false;
    int pauses = 0;

    if(small) { nr_workers = 1 + rnd(2); nr_tasks = 1 + rnd(2); }

    if(family == "K1") {           // submit, get all, destroy
        setup(w, nr_tasks); random_kinds(w); get_before = true;
    }
    else if(family == "K2") {      // submit, destroy at once, then get
        setup(w, nr_tasks); random_kinds(w);
        pauses = rnd(2) ? rnd(120) : 0;
    }
    else if(family == "K3") {      // more than one submitting thread
        submitters = 1 + rnd(2);
        nr_tasks = std::max(nr_tasks, submitters + 1);
        setup(w, nr_tasks); random_kinds(w);
        get_before = rnd(2);
        other_get = rnd(2);
    }
    else if(family == "K4") {      // n tasks that need n workers at once
        nr_workers = small ? 2 : 2 + rnd(3);
        int const rounds = small ? 1 : 1 + rnd(2);
        nr_tasks = nr_workers * rounds;
        setup(w, nr_tasks, rounds);
        for(int t = 1; t <= nr_tasks; ++t) {
            w.tasks[t].barrier = (t - 1) / nr_workers;
            w.tasks[t].points = rnd(2);
        }
        for(int r = 0; r < rounds; ++r) {
            w.barriers[r].target = nr_workers;
        }
        before = rnd(2) ? rnd(150) : 0;
        get_before = true;
    }
    else if(family == "K5") {      // sleeping workers, then a burst
        nr_workers = small ? 1 + rnd(2) : 1 + rnd(4);
        nr_tasks = 1 + rnd(nr_workers);
        setup(w, nr_tasks, 1);
        for(int t = 1; t <= nr_tasks; ++t) { w.tasks[t].barrier = 0; }
        w.barriers[0].target = nr_tasks;
        before = 20 + rnd(60);
        burst = true; get_before = true;
    }
    else if(family == "K6") {      // tasks that submit tasks
        nr_tasks = small ? 2 : 3 + rnd(4);
        setup(w, nr_tasks); random_kinds(w);
        int const roots = 1 + rnd(2);
        for(int t = roots + 1; t <= nr_tasks; ++t) {
            w.tasks[1 + rnd(std::min(t - 1, roots + 1))].nested.push_back(t);
        }
        for(int t = 1; t <= std::min(roots, nr_tasks); ++t) {
            main_tasks.push_back(t);
        }
        get_before = rnd(2);
    }
    else if(family == "K7") {      // nothing submitted
        nr_tasks = 0; nr_workers = 1 + rnd(4);
        setup(w, 0);
        before = rnd(2) ? rnd(250) : 0;
    }
    else if(family == "K8") {      // tasks still running during destruction
        nr_workers = 1 + rnd(3);
        int const running = 1 + rnd(nr_workers);
        nr_tasks = running + rnd(3);
        setup(w, nr_tasks, 2); 
        random_kinds(w);
        for(int t = 1; t <= nr_tasks; ++t) {
            w.tasks[t].sleep_ms = 0; w.tasks[t].points = 0;
        }
        for(int t = 1; t <= running; ++t) { w.tasks[t].gate = 0; }
        w.barriers[0].target = 1;
        gate = true;
        before = rnd(2) ? rnd(60) : 0;
        pauses = rnd(2) ? 20 + rnd(100) : 0;
    }
    if(family != "K6" && nr_tasks > 0) {
        other_tasks.resize(submitters);
        for(int t = 1; t <= nr_tasks; ++t) {
            int const who = t <= submitters ? t : rnd(submitters + 1);
            if(who == 0) { main_tasks.push_back(t); }
            else { other_tasks[who - 1].push_back(t); }
        }
    }
    (void)between;

    std::string head = "\"workers\":" + std::to_string(nr_workers) +
        ",\"tasks\":" + std::to_string(nr_tasks) + ",\"kinds\":[";
    for(int t = 1; t <= nr_tasks; ++t) {
        head += (t > 1 ? "," : "");
        head += w.tasks[t].kind == THROW ? "\"exc\"" : "\"val\"";
    }
    set_head(head + "]");

    sched::start(options);
    {
        auto pool = std::make_unique<fern::ThreadPool>(nr_workers);
        w.pool = pool.get();
        log("N", 0, -1, "", static_cast<int>(pool->size()));
        if(before) { sleep_ms(before); }
        std::vector<std::thread> others;
        for(auto const& tasks: other_tasks) {
            others.emplace_back([&tasks, other_get]() {
                for(int t: tasks) { submit(t); }
                if(other_get) { for(int t: tasks) { get(t); } }
            });
        }
        if(burst) { log("Z", 0, -1, "", sched::nr_asleep(1)); }
        for(int t: main_tasks) { submit(t); }
        for(auto& thread: others) { thread.join(); }
        if(get_before) {
            for(int t = 1; t <= nr_tasks; ++t) { get(t); }
        }
        if(pauses) { sleep_ms(pauses); }
        std::thread opener;
        if(gate) {
            // With a worker busy until the gate opens, destruction must wait.
            opener = std::thread([&w]() {
                sleep_ms(300);
                log("OPEN", 0);
                w.barriers[0].open();
            });
        }
        log("CC", 0, -1, "", sched::nr_asleep(1) - (gate ? 1 : 0));
        pool.reset();
        int alive = sched::nr_threads_alive() - 1;
        if(gate && opener.joinable()) {
            opener.join();
            alive = sched::nr_threads_alive() - 1;
        }
        log("CR", 0, -1, "", alive);
        if(alive != 0) { log("STUCK", 0, -1, "alive"); _exit(42); }
    }
    sleep_ms(500);
    log("Q", 0);
    for(int t = 1; t <= nr_tasks; ++t) { get(t); }
    log("END", 0);
    sched::stop();
    world = nullptr;
}

} // namespace
