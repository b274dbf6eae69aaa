// Driver for harnesses that record independent operations on the real code.
// PROG SEED FROM TO OUT: records events FROM..TO-1. Event i depends only on
// (SEED, i). A crash ends the process after writing an event that says so;
// the caller continues with the next one.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>

namespace ev {

struct Rng
{
    uint64_t state;
    uint64_t index{0};      // The event's.

    explicit Rng(uint64_t seed=1): state(seed) {}

    uint64_t next()
    {
        uint64_t z = (state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    // Inclusive bounds.
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(
            next() % static_cast<uint64_t>(hi - lo + 1));
    }

    bool chance(int percent) { return range(0, 99) < percent; }

    template<typename T>
    T const& pick(std::vector<T> const& values)
    {
        return values[static_cast<size_t>(range(0, values.size() - 1))];
    }
};

// TLC's integers have 32 bits.
inline std::string number(int64_t value)
{
    int64_t const most = 2147483647;
    return std::to_string(value > most ? most : value < -most ? -most : value);
}

class Json
{
public:
    std::string text{"{"};

    std::string& key(char const* name)
    {
        if(text.size() > 1) text += ',';
        text += '"';
        text += name;
        text += "\":";
        return text;
    }
    Json& i(char const* name, int64_t value)
    {
        key(name) += number(value);
        return *this;
    }
    Json& b(char const* name, bool value)
    {
        key(name) += value ? "true" : "false";
        return *this;
    }
    Json& s(char const* name, std::string const& value)
    {
        key(name) += '"';
        for(char c: value) {
            if(c == '"' || c == '\\') text += '\\';
            if(c == '\n') { text += "\\n"; continue; }
            text += c;
        }
        text += '"';
        return *this;
    }
    template<typename C>
    Json& is(char const* name, C const& values)
    {
        key(name) += '[';
        bool first = true;
        for(auto const& v: values) {
            if(!first) text += ',';
            first = false;
            text += number(static_cast<int64_t>(v));
        }
        text += ']';
        return *this;
    }
    template<typename C>
    Json& bs(char const* name, C const& values)
    {
        key(name) += '[';
        bool first = true;
        for(bool v: values) {
            if(!first) text += ',';
            first = false;
            text += v ? "true" : "false";
        }
        text += ']';
        return *this;
    }
    Json& raw(char const* name, std::string const& value)
    {
        key(name) += value;
        return *this;
    }
    template<typename C>
    Json& raws(char const* name, C const& values)
    {
        key(name) += '[';
        bool first = true;
        for(std::string const& v: values) {
            if(!first) text += ',';
            first = false;
            text += v;
        }
        text += ']';
        return *this;
    }
};

inline std::string str_list(std::vector<std::string> const& values)
{
    std::string t = "[";
    for(auto const& v: values) {
        if(t.size() > 1) t += ',';
        t += '"';
        for(char c: v) {
            if(c == '"' || c == '\\') t += '\\';
            if(c == '\n') { t += "\\n"; continue; }
            t += c;
        }
        t += '"';
    }
    return t + "]";
}

inline int out_fd = -1;
inline std::string pending;     // What is written if the code crashes.
inline char crash_line[1 << 16];
inline size_t crash_size = 0;
inline bool emitted = false;
inline volatile sig_atomic_t armed = 0;

inline void put(char const* data, size_t size)
{
    while(size > 0) {
        ssize_t n = ::write(out_fd, data, size);
        if(n <= 0) _exit(71);
        data += n;
        size -= static_cast<size_t>(n);
    }
}

// Only characters that can be read by any reader. Others are within strings.
inline std::string plain(std::string const& text)
{
    std::string result;
    for(char c: text) {
        unsigned char const u = static_cast<unsigned char>(c);
        if(u >= 0x20 && u < 0x7f) { result += c; continue; }
        char code[8];
        std::snprintf(code, sizeof(code), "\\u%04x", u);
        result += code;
    }
    return result;
}

// Call before the code under test is entered: describes the event.
inline void begin(Json const& head)
{
    std::string line = plain(head.text) + ",\"crash\":1}\n";
    if(line.size() > sizeof(crash_line)) {
        line = "{\"op\":\"?\",\"crash\":1}\n";
    }
    std::memcpy(crash_line, line.data(), line.size());
    crash_size = line.size();
    armed = 1;
}

inline void end(Json const& event)
{
    armed = 0;
    std::string line = plain(event.text) + ",\"crash\":0}\n";
    put(line.data(), line.size());
    emitted = true;
}

inline void on_crash(int)
{
    if(armed) {
        armed = 0;
        put(crash_line, crash_size);
    }
    _exit(70);
}

using Kind = std::function<void(Rng&)>;

inline std::vector<Kind>& kinds()
{
    static std::vector<Kind> result;
    return result;
}

inline int main(int argc, char** argv)
{
    if(argc != 5) {
        std::printf("%zu\n", kinds().size());
        return 2;
    }
    uint64_t seed = std::strtoull(argv[1], nullptr, 10);
    uint64_t from = std::strtoull(argv[2], nullptr, 10);
    uint64_t to = std::strtoull(argv[3], nullptr, 10);
    out_fd = ::open(argv[4], O_WRONLY | O_CREAT | O_APPEND, 0644);
    if(out_fd < 0) return 71;
    for(int s: {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
        struct sigaction action;
        std::memset(&action, 0, sizeof(action));
        action.sa_handler = on_crash;
        ::sigaction(s, &action, nullptr);
    }
    for(uint64_t i = from; i < to; ++i) {
        Rng rng(seed * 1000003u + i * 7919u + 17u);
        rng.next();
        rng.index = i;
        emitted = false;
        ::alarm(60);
        try {
            kinds()[i % kinds().size()](rng);
        }
        catch(...) {
            // An exception where the caller of the code did not expect one.
            if(!armed) throw;
            on_crash(0);
        }
        ::alarm(0);
        if(!emitted) return 72;
    }
    // Threads of the code under test have been joined by now.
    return 0;
}

} // namespace ev
