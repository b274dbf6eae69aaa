#include "ctl.h"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <climits>

namespace {

long raw_futex(int* address, int op, int value)
{
    return syscall(SYS_futex, address, op, value, nullptr, nullptr, 0);
}

enum State { READY, LOCK, COND, JOIN, FUTEX, SLEEP, DONE };

struct Thread {
    int id = -1;
    State state = READY;
    void* object = nullptr;      // mutex / condition / futex word
    void* mutex = nullptr;       // mutex to take again after COND
    unsigned expected = 0;       // FUTEX
    int target = -1;             // JOIN
    bool timed = false;
    std::int64_t deadline = 0;   // ns, virtual
    bool timed_out = false;
    bool detached = false;
    pthread_t handle{};
    int priority = 0;
    std::atomic<int> token{0};
    void* (*routine)(void*) = nullptr;
    void* argument = nullptr;
};

std::int64_t const clock_base = 1000000000000ll;
int const max_threads = 64;
Thread threads[max_threads];
int nr_threads = 0;
std::atomic<bool> managing{false};
thread_local Thread* me = nullptr;
// Templates instantiated here may be linked to instrumented copies: accesses
// by the scheduler itself are no scheduling points.
thread_local int busy = 0;
struct Busy { Busy() { ++busy; } ~Busy() { --busy; } };
std::map<void*, int> owners;     // mutex -> thread id, and recursion ignored
sched::Options options;
std::uint64_t rng_state = 1;
std::int64_t virtual_ns = 0;
int nr_steps = 0;
std::vector<sched::Choice> made;
std::vector<int> change_points;
int next_low_priority = -1;
int same = 0, last_chosen = -1;

std::uint64_t rnd()
{
    // splitmix64
    std::uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

template<typename F> F real(char const* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if(!p) { fprintf(stderr, "sched: no %s\n", name); _exit(3); }
    return reinterpret_cast<F>(p);
}
#define REAL(name) static auto real_##name = real<decltype(&::name)>(#name)

void park(Thread& t)
{
    while(t.token.load(std::memory_order_acquire) == 0) {
        raw_futex(reinterpret_cast<int*>(&t.token), FUTEX_WAIT_PRIVATE, 0);
    }
    t.token.store(0, std::memory_order_relaxed);
}

void unpark(Thread& t)
{
    t.token.store(1, std::memory_order_release);
    raw_futex(reinterpret_cast<int*>(&t.token), FUTEX_WAKE_PRIVATE, 1);
}

bool mutex_free(void* m)
{
    Busy guard;
    auto it = owners.find(m);
    return it == owners.end();
}

bool enabled(Thread const& t)
{
    switch(t.state) {
        case READY: return true;
        case LOCK: return mutex_free(t.object);
        case JOIN: return threads[t.target].state == DONE;
        case FUTEX:
            return (*static_cast<unsigned volatile*>(t.object)) != t.expected;
        default: return false;
    }
}

bool may_time_out(Thread const& t)
{
    return t.timed && (t.state == COND || t.state == FUTEX ||
        t.state == SLEEP || t.state == LOCK) && !enabled(t);
}

char const* state_name(State s)
{
    static char const* names[] = {"ready", "lock", "cond", "join", "futex",
        "sleep", "done"};
    return names[s];
}

[[noreturn]] void stuck(char const* what)
{
    std::string detail;
    for(int i = 0; i < nr_threads; ++i) {
        detail += (i ? "," : "");
        detail += std::to_string(i) + ":" + state_name(threads[i].state);
    }
    managing = false;
    if(sched::on_stuck) { sched::on_stuck(what, detail); }
    fprintf(stderr, "sched: %s %s\n", what, detail.c_str());
    _exit(42);
}

void expire(Thread& t)
{
    if(t.deadline > virtual_ns) { virtual_ns = t.deadline; }
    if(virtual_ns - clock_base > options.max_ms * 1000000ll) {
        stuck("no-progress");
    }
    t.timed_out = true;
    t.timed = false;
    if(t.state == COND) { t.state = LOCK; t.object = t.mutex; }
    else { t.state = READY; }
}

// Choose the next thread and hand over. On return the calling thread has been
// chosen (or is done, in which case this returns at once).
void reschedule()
{
    Busy guard;
    if(++nr_steps > options.max_steps) { stuck("max-steps"); }

    std::vector<int> ready, timed;
    int chosen = -1;
    while(chosen < 0) {
        ready.clear(); timed.clear();
        for(int i = 0; i < nr_threads; ++i) {
            if(threads[i].state == DONE) { continue; }
            if(enabled(threads[i])) { ready.push_back(i); }
            else if(may_time_out(threads[i])) { timed.push_back(i); }
        }
        if(ready.empty() && timed.empty()) { stuck("deadlock"); }
        bool const early = !ready.empty() && !timed.empty() &&
            options.p_timeout > 0 && rnd01() < options.p_timeout;
        if(ready.empty() || early) {
            // The earliest deadline expires.
            int first = timed[0];
            for(int i: timed) {
                if(threads[i].deadline < threads[first].deadline) {
                    first = i;
                }
            }
            expire(threads[first]);
            continue;
        }
        if(options.p_spurious > 0 && rnd01() < options.p_spurious) {
            for(int i = 0; i < nr_threads; ++i) {
                auto& t = threads[i];
                if(t.state == COND && rnd01() < 0.5) {
                    t.state = LOCK; t.object = t.mutex; t.timed = false;
                    break;
                }
            }
        }

        int const current = me ? me->id : -1;
        bool const current_ready = me && me->state != DONE && enabled(*me);
        switch(options.mode) {
            case sched::uniform:
                chosen = ready[rnd() % ready.size()];
                break;
            case sched::pct: {
                for(int p: change_points) {
                    if(p == nr_steps && current >= 0) {
                        threads[current].priority = next_low_priority--;
                    }
                }
                chosen = ready[0];
                for(int i: ready) {
                    if(threads[i].priority > threads[chosen].priority) {
                        chosen = i;
                    }
                }
                break;
            }
            case sched::main_first:
                chosen = ready[0] == 0 ? 0 : ready[rnd() % ready.size()];
                break;
            case sched::main_last:
                chosen = ready[0] != 0 ? ready[rnd() % ready.size()] :
                    ready.size() == 1 ? 0 :
                    ready[1 + rnd() % (ready.size() - 1)];
                break;
            case sched::replay: {
                // Alternatives: current thread first, then the others.
                std::vector<int> order;
                if(current_ready) { order.push_back(current); }
                for(int i: ready) {
                    if(!(current_ready && i == current)) { order.push_back(i); }
                }
                size_t const k = made.size();
                int index = k < options.prefix.size() ? options.prefix[k] : 0;
                if(index >= static_cast<int>(order.size())) { index = 0; }
                chosen = order[index];
                made.push_back({static_cast<int>(order.size()), index,
                    current_ready ? 1 : 0});
                break;
            }
        }
    }

    // Nobody is starved by a thread that polls.
    if(chosen == last_chosen && ready.size() > 1) {
        if(++same > 400) {
            if(options.mode == sched::pct) {
                threads[chosen].priority = next_low_priority--;
            }
            std::vector<int> others;
            for(int i: ready) { if(i != chosen) { others.push_back(i); } }
            chosen = others[rnd() % others.size()];
            same = 0;
        }
    }
    else { same = 0; }
    last_chosen = chosen;

    Thread& next = threads[chosen];
    Thread* const self = me;
    if(&next == self) { return; }
    unpark(next);
    if(self && self->state != DONE) { park(*self); }
}

// Acquire what self is waiting for; self is enabled and has the token.
void acquire(void* mutex)
{
    Busy guard;
    owners[mutex] = me->id;
    me->state = READY;
    sched::event('A', mutex);
}

void release(void* m)
{
    Busy guard;
    sched::event('L', m);
    owners.erase(m);
}

void lock(void* m)
{
    me->state = LOCK; me->object = m; me->timed = false;
    reschedule();
    acquire(m);
}

bool usable() { return managing.load(std::memory_order_relaxed) && me; }

std::int64_t to_ns(timespec const* t)
{
    return static_cast<std::int64_t>(t->tv_sec) * 1000000000ll + t->tv_nsec;
}

int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed,
    std::int64_t deadline)
{
    sched::point();
    release(m);
    me->state = COND; me->object = c; me->mutex = m;
    me->timed = timed; me->deadline = deadline; me->timed_out = false;
    reschedule();
    acquire(m);
    bool const timed_out = me->timed_out;
    me->timed_out = false;
    me->timed = false;
    return timed_out ? ETIMEDOUT : 0;
}

void* trampoline(void* argument)
{
    Thread* t = static_cast<Thread*>(argument);
    me = t;
    park(*t);
    sched::event('A', t);
    void* result = t->routine(t->argument);
    if(managing) {
        sched::event('L', t);
        ++busy;              // For good.
        sched::point();
        t->state = DONE;
        reschedule();
    }
    me = nullptr;
    return result;
}

} // namespace

namespace sched {

void (*on_stuck)(char const* what, std::string const& detail) = nullptr;
void (*on_event)(char kind, void const* object, int size) = nullptr;

bool internal() { return busy != 0; }

void start(Options const& opts)
{
    Busy guard;
    options = opts;
    rng_state = opts.seed * 2654435761ull + 12345;
    nr_threads = 1;
    nr_steps = 0;
    virtual_ns = clock_base;
    owners.clear();
    made.clear();
    change_points.clear();
    for(int i = 0; i < opts.nr_changes; ++i) {
        change_points.push_back(1 + rnd() % opts.horizon);
    }
    next_low_priority = -1;
    same = 0; last_chosen = -1;
    for(auto& thread: threads) {
        thread.token = 0; thread.state = READY; thread.timed = false;
        thread.timed_out = false; thread.object = nullptr;
    }
    Thread& t = threads[0];
    t.id = 0; t.state = READY; t.handle = pthread_self();
    t.priority = static_cast<int>(rnd() % 1000);
    me = &t;
    managing = true;
}

void stop() { managing = false; me = nullptr; }
bool active() { return usable(); }
int self() { return me ? me->id : -1; }
std::int64_t now_ms() { return (virtual_ns - clock_base) / 1000000; }
int steps() { return nr_steps; }
std::vector<Choice> const& choices() { return made; }

int nr_asleep(int first)
{
    int result = 0;
    for(int i = first; i < nr_threads; ++i) {
        auto const& t = threads[i];
        result += (t.state == COND || t.state == FUTEX || t.state == SLEEP) &&
            !enabled(t);
    }
    return result;
}

int nr_threads_alive()
{
    int result = 0;
    for(int i = 0; i < nr_threads; ++i) { result += threads[i].state != DONE; }
    return result;
}

void point()
{
    if(!usable()) { return; }
    me->state = READY;
    reschedule();
}

} // namespace sched

extern "C" {

int pthread_create(pthread_t* handle, pthread_attr_t const* attributes,
    void* (*routine)(void*), void* argument)
{
    REAL(pthread_create);
    if(!usable()) {
        return real_pthread_create(handle, attributes, routine, argument);
    }
    sched::point();
    sched::event('L', &threads[nr_threads]);
    if(nr_threads == max_threads) { fprintf(stderr, "sched: threads\n"); _exit(3); }
    Thread& t = threads[nr_threads];
    t.id = nr_threads; t.state = READY; t.routine = routine;
    t.argument = argument;
    t.priority = static_cast<int>(rnd() % 1000);
    int const result = real_pthread_create(handle, attributes, trampoline, &t);
    if(result == 0) {
        t.handle = *handle;
        ++nr_threads;
        sched::point();
    }
    return result;
}

int pthread_join(pthread_t handle, void** value)
{
    REAL(pthread_join);
    if(usable()) {
        int target = -1;
        for(int i = 0; i < nr_threads; ++i) {
            if(pthread_equal(threads[i].handle, handle)) { target = i; }
        }
        if(target >= 0) {
            me->state = JOIN; me->target = target; me->timed = false;
            reschedule();
            me->state = READY;
            sched::event('A', &threads[target]);
        }
    }
    return real_pthread_join(handle, value);
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_lock);
    if(!usable()) { return real_pthread_mutex_lock(m); }
    lock(m);
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_trylock);
    if(!usable()) { return real_pthread_mutex_trylock(m); }
    sched::point();
    if(!mutex_free(m)) { return EBUSY; }
    acquire(m);
    return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_unlock);
    if(!usable()) { return real_pthread_mutex_unlock(m); }
    release(m);
    sched::point();
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    REAL(pthread_cond_wait);
    if(!usable()) { return real_pthread_cond_wait(c, m); }
    return cond_wait(c, m, false, 0);
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
    timespec const* t)
{
    REAL(pthread_cond_timedwait);
    if(!usable()) { return real_pthread_cond_timedwait(c, m, t); }
    return cond_wait(c, m, true, to_ns(t));
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id,
    timespec const* t)
{
    REAL(pthread_cond_clockwait);
    if(!usable()) { return real_pthread_cond_clockwait(c, m, id, t); }
    return cond_wait(c, m, true, to_ns(t));
}

static void wake(pthread_cond_t* c, bool all)
{
    Busy guard;
    std::vector<int> waiting;
    for(int i = 0; i < nr_threads; ++i) {
        if(threads[i].state == COND && threads[i].object == c) {
            waiting.push_back(i);
        }
    }
    if(waiting.empty()) { return; }
    if(!all) {
        int const one = options.mode == sched::replay ? waiting[0] :
            waiting[rnd() % waiting.size()];
        waiting.assign(1, one);
    }
    for(int i: waiting) {
        Thread& t = threads[i];
        t.state = LOCK; t.object = t.mutex; t.timed = false;
        t.timed_out = false;
    }
}

int pthread_cond_signal(pthread_cond_t* c)
{
    REAL(pthread_cond_signal);
    if(!usable()) { return real_pthread_cond_signal(c); }
    sched::point();
    wake(c, false);
    sched::point();
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
    REAL(pthread_cond_broadcast);
    if(!usable()) { return real_pthread_cond_broadcast(c); }
    sched::point();
    wake(c, true);
    sched::point();
    return 0;
}

int clock_gettime(clockid_t id, timespec* t)
{
    if(!usable()) { return static_cast<int>(syscall(SYS_clock_gettime, id, t)); }
    t->tv_sec = virtual_ns / 1000000000ll;
    t->tv_nsec = virtual_ns % 1000000000ll;
    return 0;
}

static int sleep_until(std::int64_t deadline)
{
    me->state = SLEEP; me->timed = true; me->deadline = deadline;
    reschedule();
    me->state = READY; me->timed = false; me->timed_out = false;
    return 0;
}

int nanosleep(timespec const* t, timespec* rest)
{
    REAL(nanosleep);
    if(!usable()) { return real_nanosleep(t, rest); }
    return sleep_until(virtual_ns + to_ns(t));
}

int clock_nanosleep(clockid_t id, int flags, timespec const* t, timespec* rest)
{
    REAL(clock_nanosleep);
    if(!usable()) { return real_clock_nanosleep(id, flags, t, rest); }
    return sleep_until(flags & TIMER_ABSTIME ? to_ns(t) :
        virtual_ns + to_ns(t));
}

int usleep(useconds_t us)
{
    REAL(usleep);
    if(!usable()) { return real_usleep(us); }
    return sleep_until(virtual_ns + static_cast<std::int64_t>(us) * 1000);
}

int sched_yield() noexcept
{
    if(!usable()) { return static_cast<int>(syscall(SYS_sched_yield)); }
    // Other threads must get a chance, whatever the mode.
    return sleep_until(virtual_ns + 1000);
}

} // extern "C"

// std::future waits on a futex through these two members of libstdc++.
namespace std {

bool __atomic_futex_unsigned_base_wait(unsigned* address, unsigned value,
    bool has_timeout, std::int64_t deadline)
{
    if(*static_cast<unsigned volatile*>(address) != value) {
        sched::point();
        return true;
    }
    me->state = FUTEX; me->object = address; me->expected = value;
    me->timed = has_timeout; me->deadline = deadline; me->timed_out = false;
    reschedule();
    bool const timed_out = me->timed_out;
    me->state = READY; me->timed = false; me->timed_out = false;
    return !timed_out;
}

} // namespace std

extern "C" {

// std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned*, unsigned,
//     bool, chrono::seconds, chrono::nanoseconds)
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void* self, unsigned* address, unsigned value, bool has_timeout,
    long seconds, long nanoseconds)
{
    static auto real_wait = real<bool(*)(void*, unsigned*, unsigned, bool, long,
        long)>("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
    if(!usable()) {
        return real_wait(self, address, value, has_timeout, seconds,
            nanoseconds);
    }
    return std::__atomic_futex_unsigned_base_wait(address, value, has_timeout,
        seconds * 1000000000l + nanoseconds);
}

bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void* self, unsigned* address, unsigned value, bool has_timeout,
    long seconds, long nanoseconds)
{
    static auto real_wait = real<bool(*)(void*, unsigned*, unsigned, bool, long,
        long)>("_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
    if(!usable()) {
        return real_wait(self, address, value, has_timeout, seconds,
            nanoseconds);
    }
    return std::__atomic_futex_unsigned_base_wait(address, value, has_timeout,
        seconds * 1000000000l + nanoseconds);
}

void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(
    void* self, unsigned* address)
{
    static auto real_notify = real<void(*)(void*, unsigned*)>(
        "_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
    // Waiters are enabled by the value they see; nothing else to do.
    if(usable()) { sched::point(); return; }
    real_notify(self, address);
}

} // extern "C"
