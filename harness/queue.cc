// Executions of fern::ThreadSafeQueue under the controlled scheduler. Events:
// C (call) and R (return) of push, pop and empty, by thread w.
#include "runs.h"
#include "fern/core/thread_safe_queue.h"
#include <memory>
#include <thread>

namespace {

// A value with a body of its own, so that a torn or duplicated element shows.
struct Value {
    std::unique_ptr<int> x;
    Value() = default;
    explicit Value(int v): x(new int(v)) {}
    int get() const { return x ? *x : -1; }
};

enum Op { PUSH, POP, EMPTY };

template<class Q> void act(Q& queue, int w, std::vector<std::pair<Op, int>> const& ops)
{
    for(auto const& op: ops) {
        switch(op.first) {
            case PUSH:
                log("C", op.second, w, "push");
                queue.push(Value(op.second));
                log("R", op.second, w, "push");
                break;
            case POP: {
                log("C", 0, w, "pop");
                Value v(-7);
                bool const ok = queue.try_pop(v);
                log("R", ok ? v.get() : 0, w, "pop", ok ? 1 : 0);
                // An unsuccessful attempt leaves the argument alone.
                if(!ok && v.get() != -7) { log("TOUCHED", 0, w); }
                break;
            }
            case EMPTY: {
                log("C", 0, w, "empty");
                bool const empty = queue.empty();
                log("R", 0, w, "empty", empty ? 1 : 0);
                break;
            }
        }
    }
}

void prepare() {}

void scenario(std::string const& family, sched::Options const& options,
    bool small)
{
    int nr_threads = small ? 2 : 2 + rnd(3);
    int nr_ops = small ? 2 : 2 + rnd(4);
    std::vector<std::vector<std::pair<Op, int>>> ops(nr_threads + 1);
    int next = 1;
    for(int w = 1; w <= nr_threads; ++w) {
        int const n = 1 + rnd(nr_ops);
        for(int i = 0; i < n; ++i) {
            unsigned const k = rnd(10);
            Op op = k < 4 ? PUSH : k < 9 ? POP : EMPTY;
            if(family == "Q2") {           // producers and consumers
                op = w % 2 ? PUSH : k == 0 ? EMPTY : POP;
            }
            else if(family == "Q3") {      // filled before, emptied by all
                op = k == 0 ? EMPTY : POP;
            }
            ops[w].push_back({op, op == PUSH ? next++ : 0});
        }
    }
    if(family == "Q4") {       // never empty, and asked all the time
        nr_threads = 2 + rnd(2);
        ops.assign(nr_threads + 1, {});
        next = 1;
        for(int w = 1; w <= nr_threads; ++w) {
            int const n = 2 + rnd(3);
            for(int i = 0; i < n; ++i) {
                if(w == 1) { ops[w].push_back({EMPTY, 0}); }
                else {
                    ops[w].push_back({PUSH, next++});
                    ops[w].push_back({POP, 0});
                }
            }
        }
    }
    int const filled = family == "Q4" ? 1 + rnd(2) : family == "Q3" ? 1 + rnd(5) : rnd(3);
    std::vector<std::pair<Op, int>> first, last;
    for(int i = 0; i < filled; ++i) { first.push_back({PUSH, next++}); }
    // The main thread empties the queue: nothing is lost.
    for(int i = 0; i < next; ++i) { last.push_back({POP, 0}); }
    last.push_back({EMPTY, 0});
    set_head("\"threads\":" + std::to_string(nr_threads));

    sched::start(options);
    {
        fern::ThreadSafeQueue<Value> queue;
        act(queue, 0, first);
        std::vector<std::thread> threads;
        for(int w = 1; w <= nr_threads; ++w) {
            threads.emplace_back([&queue, &ops, w]() { act(queue, w, ops[w]); });
        }
        for(auto& thread: threads) { thread.join(); }
        act(queue, 0, last);
        log("END", 0, 0);
    }
    sched::stop();
}

} // namespace
