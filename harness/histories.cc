// Programs over symbol tables, scopes, stacks and scope guards.
#include <cassert>
#include <string>
#include <vector>
#include "fern/core/scope_exit.h"
#include "fern/core/stack.h"
#include "fern/language/core/symbol_table.h"
#include "events.h"
#include <map>
#include <memory>
#include <optional>

namespace {

using ev::Json;
using ev::Rng;

std::string const names[] = {"a", "b", "ab", ""};

template<typename T> T value_of(int x);
template<> int value_of(int x) { return x; }
template<> std::string value_of(int x) { return std::string(20, 'x') +
    std::to_string(x); }
int number(int x) { return x; }
int number(std::string const& x)
{
    return x.size() > 20 ? std::atoi(x.c_str() + 20) : 0;
}

// What a scope holds, in the order of the names.
template<typename T>
std::string seen(fern::Scope<T> const& scope)
{
    std::vector<std::string> items;
    for(auto const& item: scope) {
        Json j;
        j.s("k", item.first).i("x", number(item.second));
        items.push_back(j.text + "}");
    }
    Json j;
    j.i("size", scope.size()).raws("items", items);
    return j.text + "}";
}

// All that can be asked of a table.
template<typename T>
std::string seen(fern::SymbolTable<T> const& table)
{
    Json j;
    std::vector<std::string> scopes, found;
    for(size_t i = 1; i <= table.scope_level(); ++i) {
        scopes.push_back(seen(table.scope(i)));
    }
    for(auto const& name: names) {
        Json n;
        bool const has = table.has_value(name);
        n.b("has", has).i("x", has ? number(table.value(name)) : 0)
            .i("level", has ? int(table.scope_level(name)) : 0);
        found.push_back(n.text + "}");
    }
    j.i("level", table.scope_level()).i("size", table.size())
        .b("empty", table.empty()).raws("scopes", scopes)
        .raws("found", found);
    return j.text + "}";
}

template<typename T>
void tables(Rng& rng)
{
    using Table = fern::SymbolTable<T>;
    Json head;
    std::vector<std::string> all, steps;
    for(auto const& name: names) { all.push_back("\"" + name + "\""); }
    head.s("op", "tables").raws("names", all);
    ev::begin(head);
    std::unique_ptr<Table> slots[2] = {std::make_unique<Table>(),
        std::make_unique<Table>()};
    int const n = rng.range(5, 25);
    for(int k = 0; k < n; ++k) {
        Json j;
        int const a = rng.chance(70) ? 0 : 1, b = 1 - a;
        auto& t = *slots[a];
        std::string const name = names[rng.range(0, 3)];
        int const x = rng.range(1, 9);
        j.i("a", a + 1).s("k", name).i("x", x);
        bool const scoped = t.scope_level() > 0;
        switch(rng.range(0, 11)) {
            case 0: case 1: j.s("s", "push"); t.push_scope(); break;
            case 2:
                if(scoped) { j.s("s", "pop"); t.pop_scope(); }
                else { j.s("s", "push"); t.push_scope(); }
                break;
            case 3:
                if(scoped && rng.chance(50)) {
                    j.s("s", "clear"); t.clear_scope(); break;
                }
                [[fallthrough]];
            case 4: case 5: case 6: case 7:
                if(!scoped) { j.s("s", "push"); t.push_scope(); break; }
                j.s("s", "add"); t.add_value(name, value_of<T>(x)); break;
            case 8:
                if(scoped && t.scope(t.scope_level()).has_value(name)) {
                    j.s("s", "erase"); t.erase_value(name);
                }
                else { j.s("s", "none"); }
                break;
            case 9:
                j.s("s", "copy");
                if(rng.chance(50)) { t = *slots[b]; }
                else { slots[a] = std::make_unique<Table>(*slots[b]); }
                break;
            case 10: {
                // The other one is made anew.
                j.s("s", "move");
                if(rng.chance(50)) { t = std::move(*slots[b]); }
                else {
                    slots[a] = std::make_unique<Table>(std::move(*slots[b]));
                }
                slots[b] = std::make_unique<Table>();
                break;
            }
            case 11: {
                auto& self = t;
                j.s("s", "none");
                t = self;
                break;
            }
        }
        j.raw("o", "[" + seen(*slots[0]) + "," + seen(*slots[1]) + "]");
        steps.push_back(j.text + "}");
    }
    head.raws("steps", steps);
    ev::end(head);
}

template<typename T>
void scopes(Rng& rng)
{
    using Scope = fern::Scope<T>;
    Json head;
    std::vector<std::string> steps;
    head.s("op", "scopes");
    ev::begin(head);
    std::unique_ptr<Scope> slots[2] = {std::make_unique<Scope>(),
        std::make_unique<Scope>()};
    int const n = rng.range(5, 20);
    for(int k = 0; k < n; ++k) {
        Json j;
        int const a = rng.range(0, 1), b = 1 - a;
        auto& t = *slots[a];
        std::string const name = names[rng.range(0, 3)];
        int const x = rng.range(1, 9);
        j.i("a", a + 1).s("k", name).i("x", x);
        switch(rng.range(0, 9)) {
            case 0:
                j.s("s", "clear"); t.clear(); break;
            case 1: case 2:
                if(t.has_value(name)) { j.s("s", "erase"); t.erase_value(name); }
                else { j.s("s", "none"); }
                break;
            case 3:
                j.s("s", "copy");
                if(rng.chance(50)) { t = *slots[b]; }
                else { slots[a] = std::make_unique<Scope>(*slots[b]); }
                break;
            case 4:
                j.s("s", "move");
                if(rng.chance(50)) { t = std::move(*slots[b]); }
                else {
                    slots[a] = std::make_unique<Scope>(std::move(*slots[b]));
                }
                slots[b] = std::make_unique<Scope>();
                break;
            default:
                j.s("s", "add"); t.set_value(name, value_of<T>(x)); break;
        }
        std::vector<std::string> found;
        for(int s = 0; s < 2; ++s) {
            Json f;
            std::vector<bool> has;
            std::vector<int> values;
            for(auto const& m: names) {
                has.push_back(slots[s]->has_value(m));
                values.push_back(has.back() ? number(slots[s]->value(m)) : 0);
            }
            f.raw("scope", seen(*slots[s])).bs("has", has).is("x", values);
            found.push_back(f.text + "}");
        }
        j.raws("o", found);
        steps.push_back(j.text + "}");
    }
    std::vector<std::string> all;
    for(auto const& name: names) { all.push_back("\"" + name + "\""); }
    head.raws("names", all).raws("steps", steps);
    ev::end(head);
}

void stacks(Rng& rng)
{
    Json head;
    std::vector<std::string> steps;
    head.s("op", "stacks");
    ev::begin(head);
    fern::Stack slots[2];
    int const n = rng.range(4, 25);
    for(int k = 0; k < n; ++k) {
        Json j;
        int const a = rng.range(0, 1), b = 1 - a;
        auto& t = slots[a];
        int const x = rng.range(1, 9);
        std::string type = "int";
        j.i("a", a + 1).i("x", x);
        switch(rng.range(0, 7)) {
            case 0: j.s("s", "push"); type = "int"; t.push(x); break;
            case 1: j.s("s", "push"); type = "text";
                t.push(value_of<std::string>(x)); break;
            case 2: j.s("s", "push"); type = "real"; t.push(double(x)); break;
            case 3: j.s("s", "push"); type = "shared";
                t.push(std::make_shared<int>(x)); break;
            case 4: case 5:
                if(t.empty()) { j.s("s", "none"); }
                else { j.s("s", "pop"); t.pop(); }
                break;
            case 6: j.s("s", "copy"); t = slots[b]; break;
            case 7:
                j.s("s", "move");
                t = std::move(slots[b]);
                slots[b] = fern::Stack();
                break;
        }
        j.s("type", type);
        std::vector<std::string> seen_;
        for(auto const& s: slots) {
            // The top is asked for as each of the types.
            Json o;
            std::string top = "";
            int is = 0, throws = 0, y = 0;
            if(!s.empty()) {
                auto ask = [&](auto const& want, char const* name, auto as) {
                    using W = std::decay_t<decltype(want)>;
                    try {
                        y = as(s.top<W>());
                        top = name;
                        ++is;
                        if(s.top().type() != typeid(W)) { is += 100; }
                    }
                    catch(boost::bad_any_cast const&) { ++throws; }
                };
                ask(int(), "int", [](int v) { return v; });
                ask(std::string(), "text", [](std::string const& v) {
                    return number(v); });
                ask(double(), "real", [](double v) { return int(v); });
                ask(std::shared_ptr<int>(), "shared",
                    [](std::shared_ptr<int> const& v) { return *v; });
            }
            o.i("size", s.size()).b("empty", s.empty()).s("type", top)
                .i("x", y).i("is", is).i("throws", throws);
            seen_.push_back(o.text + "}");
        }
        j.raws("o", seen_);
        steps.push_back(j.text + "}");
    }
    // Finally, all that is on the stacks.
    std::vector<std::string> rest;
    for(auto& s: slots) {
        std::vector<int> numbers;
        while(!s.empty()) {
            auto const& top = s.top();
            if(top.type() == typeid(int)) { numbers.push_back(s.top<int>()); }
            else if(top.type() == typeid(double)) {
                numbers.push_back(s.top<double>());
            }
            else if(top.type() == typeid(std::string)) {
                numbers.push_back(number(s.top<std::string>()));
            }
            else { numbers.push_back(*s.top<std::shared_ptr<int>>()); }
            s.pop();
        }
        Json r;
        r.is("l", numbers);
        rest.push_back(r.text + "}");
    }
    head.raws("steps", steps).raws("rest", rest);
    ev::end(head);
}

// Guards that are moved, released and left, in any way. Calls are recorded.
struct Failure {};

void guards(Rng& rng)
{
    Json head;
    head.s("op", "guards");
    ev::begin(head);
    std::vector<int> calls;
    std::vector<std::string> steps;
    bool const fails = rng.chance(30);
    bool const stored = rng.chance(50);
    auto program = [&](auto make) {
        using Guard = decltype(make(0));
        // On the heap, so that they can be left in any order.
        std::vector<std::unique_ptr<Guard>> slots(3);
        int made = 0;
        auto body = [&]() {
            int const n = rng.range(2, 10);
            for(int k = 0; k < n; ++k) {
                int const a = rng.range(0, 2), b = rng.range(0, 2);
                Json j;
                j.i("a", a + 1).i("b", b + 1);
                switch(rng.range(0, 4)) {
                    case 0: case 1:
                        j.s("s", "make").i("x", ++made);
                        slots[a].reset();
                        slots[a].reset(new Guard(make(made)));
                        break;
                    case 2:
                        if(slots[b] && a != b) {
                            // The one that is moved from stays.
                            j.s("s", "move");
                            slots[a].reset();
                            slots[a].reset(new Guard(std::move(*slots[b])));
                        }
                        else { j.s("s", "none"); }
                        break;
                    case 3:
                        if(slots[a]) { j.s("s", "release"); slots[a]->release(); }
                        else { j.s("s", "none"); }
                        break;
                    case 4: j.s("s", "leave"); slots[a].reset(); break;
                }
                j.is("o", calls);
                steps.push_back(j.text + "}");
            }
            if(fails) { throw Failure(); }
        };
        try { body(); }
        catch(Failure const&) {}
        for(int a = 0; a < 3; ++a) {
            Json j;
            slots[a].reset();
            j.s("s", "leave").i("a", a + 1).is("o", calls);
            steps.push_back(j.text + "}");
        }
        // Ordinary use: guards in a block that is left by an exception.
        int const x = 50;
        try {
            auto one = make(x);
            auto two = make(x + 1);
            auto three = make(x + 2);
            two.release();
            if(fails) { throw Failure(); }
        }
        catch(Failure const&) {}
        Json j;
        j.s("s", "block").is("o", calls);
        steps.push_back(j.text + "}");
    };
    if(stored) {
        program([&](int x) {
            return fern::makeScopeExit(std::function<void()>([&calls, x]() {
                calls.push_back(x); }));
        });
    }
    else {
        program([&](int x) {
            return fern::makeScopeExit([&calls, x]() { calls.push_back(x); });
        });
    }
    head.raws("steps", steps);
    ev::end(head);
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {tables<int>, tables<std::string>, scopes<int>,
        scopes<std::string>, stacks, guards};
    return ev::main(argc, argv);
}
