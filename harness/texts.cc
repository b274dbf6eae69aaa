// Strings, paths and names of data. Texts are recorded as character codes.
#include <cassert>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
#include "fern/core/data_name.h"
#include "fern/core/path.h"
#include "fern/core/string.h"
#include "events.h"

namespace {

using namespace fern;
using ev::Json;
using ev::Rng;

std::string codes(std::string const& t)
{
    std::string result = "[";
    for(unsigned char c: t) {
        if(result.size() > 1) { result += ","; }
        result += std::to_string(int(c));
    }
    return result + "]";
}

std::string codes(std::vector<std::string> const& ts)
{
    std::string result = "[";
    for(auto const& t: ts) {
        if(result.size() > 1) { result += ","; }
        result += codes(t);
    }
    return result + "]";
}

std::string random_text(Rng& rng, std::string const& alphabet, int longest)
{
    std::string result;
    int const n = rng.range(0, longest);
    for(int k = 0; k < n; ++k) {
        result += alphabet[rng.range(0, alphabet.size() - 1)];
    }
    return result;
}

std::string alphabet(Rng& rng)
{
    return rng.pick<std::string>({"ab", "aB ,", " \t\n\v\f\ra", "a/;.:",
        "a|b(+)*{}.$?", "/", "aaab", "\x80\xe9z"});
}

void words(Rng& rng)
{
    Json j;
    std::string const from = alphabet(rng);
    std::string const t = random_text(rng, from, rng.pick<int>({3, 8, 30}));
    std::string by = random_text(rng, rng.chance(80) ? from : alphabet(rng), 3);
    j.s("op", "words").raw("t", codes(t)).raw("by", codes(by));
    ev::begin(j);
    auto const result = split(t, by);
    std::string a(t), b(t), c(t);
    auto& ra = strip(a, by);
    auto& rb = strip_begin(b, by);
    auto& rc = strip_end(c, by);
    std::string d(t);
    strip(d);
    j.raw("split", codes(result)).raw("strip", codes(a))
        .raw("begin", codes(b)).raw("end", codes(c)).raw("space", codes(d))
        .raw("words", codes(split(t)))
        .b("refs", &ra == &a && &rb == &b && &rc == &c);
    ev::end(j);
}

void search(Rng& rng)
{
    Json j;
    std::string const from = alphabet(rng);
    std::string const t = random_text(rng, from, rng.pick<int>({3, 8, 30}));
    std::string u = random_text(rng, from, 4);
    if(!t.empty() && rng.chance(40)) {
        // A part of it.
        int const p = rng.range(0, t.size());
        u = t.substr(p, rng.range(0, 4));
        if(rng.chance(30)) { u = t.substr(0, rng.range(0, 4)); }
        else if(rng.chance(40)) {
            u = t.substr(t.size() - std::min<size_t>(t.size(),
                rng.range(0, 4)));
        }
    }
    std::string const v = random_text(rng, from, 4);
    std::vector<std::string> ts;
    int const n = rng.range(0, 5);
    for(int k = 0; k < n; ++k) { ts.push_back(random_text(rng, from, 4)); }
    j.s("op", "search").raw("t", codes(t)).raw("u", codes(u))
        .raw("v", codes(v)).raw("ts", codes(ts));
    ev::begin(j);
    std::string a(t);
    bool ref = true;
    if(!u.empty()) { ref = &replace(a, u, v) == &a; }
    j.b("contains", contains(t, u)).b("starts", starts_with(t, u))
        .b("ends", ends_with(t, u)).raw("replace", codes(a)).b("ref", ref)
        .raw("join", codes(join(ts, u)));
    ev::end(j);
}

void integers(Rng& rng)
{
    Json j;
    std::string t;
    switch(rng.range(0, 4)) {
        case 0: t = std::to_string(rng.range(-1000, 1000)); break;
        case 1: t = std::to_string(int64_t(rng.next())); break;
        case 2: {
            // Around the largest and smallest.
            t = rng.pick<std::string>({"9223372036854775807",
                "9223372036854775808", "-9223372036854775808",
                "-9223372036854775809", "18446744073709551615",
                "-9223372036854775807", "99999999999999999999"});
            if(rng.chance(30)) {
                t[rng.range(1, t.size() - 1)] = '0' + rng.range(0, 9);
            }
            break;
        }
        case 3: t = random_text(rng, "019-+", 5); break;
        case 4: t = random_text(rng, "05-+ .e,xa", 5); break;
    }
    if(rng.chance(10)) { t = "000" + t; }
    if(rng.chance(10)) { t = "+" + t; }
    if(rng.chance(5)) { t += " "; }
    j.s("op", "integer").raw("t", codes(t));
    ev::begin(j);
    j.b("is", is_convertable_to<int64_t>(t))
        .raw("as", codes(std::to_string(as<int64_t>(t))));
    ev::end(j);
}

void reals(Rng& rng)
{
    Json j;
    std::string t;
    switch(rng.range(0, 5)) {
        case 0: t = std::to_string(rng.range(-99999, 99999)); break;
        case 1:
            t = (rng.chance(30) ? "-" : rng.chance(20) ? "+" : "") +
                random_text(rng, "0123456789", 5) +
                (rng.chance(80) ? "." : "") +
                rng.pick<std::string>({"", "5", "25", "75", "125", "875",
                    "500", "0"});
            break;
        case 2:
            t = random_text(rng, "0123456789", 4) + "." +
                random_text(rng, "0123456789", 3) +
                rng.pick<std::string>({"e", "E"}) +
                rng.pick<std::string>({"1", "-1", "+2", "", "x", "12", "-"});
            break;
        case 3: t = rng.pick<std::string>({"inf", "-inf", "+INF", "nan",
            "NaN", "infinity", "Infinity", "nano", "in", "-nan"}); break;
        default: t = random_text(rng, "05-+. e,", 5); break;
    }
    j.s("op", "real").raw("t", codes(t));
    ev::begin(j);
    bool const is = is_convertable_to<double>(t);
    double const x = as<double>(t);
    bool const fits = std::isfinite(x) && std::fabs(x) < 1e6;
    // Shown in thousandths. That suffices for short ones.
    j.b("is", is).b("zero", x == 0.0)
        .i("milli", fits ? std::llround(x * 1000) : 0)
        .b("exact", fits && std::fmod(x * 8, 1.0) == 0.0);
    ev::end(j);
}

// What two separators at the start mean differs between platforms.
std::string random_path(Rng& rng)
{
    std::string result = rng.chance(30) ? "/" : "";
    if(rng.chance(20)) {
        result += random_text(rng, "/.a", 8);
        while(starts_with(result, "//")) { result.erase(0, 1); }
        return result;
    }
    int const n = rng.range(0, 4);
    for(int k = 0; k < n; ++k) {
        result += rng.pick<std::string>({"a", "bc", ".", "..", "a.b", ".a",
            "a.b.c", "b.", "a b", "x:y", "..a", "\\"});
        if(k < n - 1 || rng.chance(25)) { result += "/"; }
        if(rng.chance(10)) { result += "/"; }
    }
    return result;
}

std::string seen(Path const& path)
{
    Json j;
    std::ostringstream stream;
    stream << path;
    j.raw("generic", codes(path.generic_string()))
        .raw("native", codes(path.native_string()))
        .raw("stream", codes(stream.str())).b("empty", path.is_empty())
        .b("absolute", path.is_absolute())
        .raw("stem", codes(path.stem().generic_string()))
        .raw("parent", codes(path.parent_path().generic_string()))
        .raw("filename", codes(path.filename().generic_string()))
        .raw("names", codes(path.names()));
    return j.text + "}";
}

// Paths are changed in steps.
void paths(Rng& rng)
{
    Json j;
    std::string const start = random_path(rng);
    j.s("op", "paths").raw("start", codes(start));
    ev::begin(j);
    Path path = rng.chance(50) ? Path(start) : Path(start.c_str());
    std::vector<std::string> steps;
    j.raw("o", seen(path));
    int const n = rng.range(1, 4);
    for(int k = 0; k < n; ++k) {
        Json s;
        std::string other = random_path(rng);
        if(rng.chance(15)) { other = path.native_string(); }
        if(rng.chance(10)) {
            size_t const at = other.find('/');
            if(at != std::string::npos && at > 0) { other.insert(at, "/"); }
        }
        bool ref = true;
        switch(rng.range(0, 3)) {
            case 0:
                other = rng.pick<std::string>({"", ".", ".tif", "xml", ".a.b",
                    "..", "x.y"});
                s.s("s", "extension");
                ref = &path.replace_extension(other) == &path;
                break;
            case 1: s.s("s", "append"); ref = &(path /= other) == &path; break;
            case 2: {
                Path const left(path);
                s.s("s", "append");
                path = left / other;
                break;
            }
            case 3: s.s("s", "none"); break;
        }
        s.raw("x", codes(other)).b("ref", ref).raw("o", seen(path))
            .b("equal", path == Path(other))
            .b("self", path == Path(path.generic_string()));
        steps.push_back(s.text + "}");
    }
    j.raws("steps", steps);
    ev::end(j);
}

void data_names(Rng& rng)
{
    Json j;
    std::string t = random_path(rng);
    while(t.empty() || t[0] == ':') { t = "d" + t; }
    if(rng.chance(85)) { t += ":" + random_path(rng); }
    j.s("op", "name").raw("t", codes(t));
    ev::begin(j);
    DataName const made = rng.chance(50) ? DataName(t) : DataName(t.c_str());
    DataName copy("other:way");
    copy = made;
    DataName const name(copy);
    j.raw("database", codes(name.database_pathname().native_string()))
        .raw("data", codes(name.data_pathname().native_string()))
        .raw("generic", codes(name.data_pathname().generic_string()))
        .b("absolute", name.data_pathname().is_absolute())
        .raw("names", codes(name.data_pathname().names()));
    ev::end(j);
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {words, search, integers, reals, paths, data_names};
    return ev::main(argc, argv);
}
