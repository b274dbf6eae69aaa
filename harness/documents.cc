// Documents of tracks (GPX) and of distributions (UncertML), read by the code.
// Everything is written in a scratch directory, which is removed at the end.
#include <cassert>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <sys/wait.h>
#include "fern/core/exception.h"
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/io/gpx/parse.h"
#include "fern/language/io/uncertml2/uncertml2_parser.h"
#include "fern/language/uncertainty/normal_distribution.h"
#include "events.h"

namespace {

using namespace ev;
using namespace fern;
namespace fs = std::filesystem;

std::string scratch;

// What a text means when it is read as a number: n / scale.
struct Value { std::string text; bool number; int64_t n; };

struct Attribute { std::string name; Value value; };

struct Node
{
    std::string tag;
    std::vector<Attribute> attributes{};
    bool leaf{false};
    std::vector<Value> values{};    // Of a leaf: a text, or a list of numbers.
    std::vector<Node> children{};
    bool chars_before{false};       // Text that belongs to the parent.
    bool broken{false};             // The end tag has another name.
    bool cut{false};                // The document ends before the end tag.
};

std::string decimal(int64_t n, int64_t scale, int digits)
{
    std::string const sign = n < 0 ? "-" : "";
    int64_t const a = n < 0 ? -n : n;
    std::string fraction = std::to_string(a % scale);
    fraction.insert(0, digits - fraction.size(), '0');
    return sign + std::to_string(a / scale) + "." + fraction;
}

std::string spelled(Rng& rng, std::string text)
{
    if(rng.chance(10) && text[0] != '-') text = "+" + text;
    if(rng.chance(10)) text = " " + text;
    if(rng.chance(10)) text += " ";
    if(rng.chance(10)) text.insert(text.find_first_of("0123456789"), "0");
    return text;
}

Value number(Rng& rng, int64_t n, int64_t scale, int digits)
{
    std::string text = decimal(n, scale, digits);
    if(rng.chance(50)) {
        while(text.back() == '0') text.pop_back();
        if(text.back() == '.' && rng.chance(80)) text.pop_back();
    }
    return {spelled(rng, text), true, n};
}

std::string escaped(std::string const& text)
{
    std::string t;
    for(char c: text) {
        if(c == '&') t += "&amp;";
        else if(c == '<') t += "&lt;";
        else if(c == '"') t += "&quot;";
        else t += c;
    }
    return t;
}

// Writes a document and describes what is on which line.
struct Writer
{
    Rng& rng;
    std::string prefix, text;
    std::vector<std::string> tokens;
    int line{1};
    bool ended{false};

    void new_line()
    {
        text += rng.chance(10) ? "\r\n" : "\n";
        ++line;
        while(rng.chance(10)) { text += "\n"; ++line; }
        if(rng.chance(30)) text += "  ";
    }

    std::string value(Value const& v) const
    {
        Json j;
        j.s("text", v.text).b("number", v.number).i("n", v.number ? v.n : 0);
        return j.text + "}";
    }

    void token(char const* t, Node const& node, bool attributes)
    {
        std::vector<std::string> as, vs;
        if(attributes) {
            for(auto const& a: node.attributes) {
                Json j;
                j.s("name", a.name).raw("value", value(a.value));
                as.push_back(j.text + "}");
            }
        }
        if(node.leaf) for(auto const& v: node.values) vs.push_back(value(v));
        Json j;
        j.s("t", t).s("tag", node.tag).i("line", line).raws("attributes", as)
            .raws("values", vs);
        tokens.push_back(j.text + "}");
    }

    void open(Node const& node, std::string const& extra)
    {
        text += "<" + prefix + node.tag + extra;
        for(auto const& a: node.attributes) {
            text += (rng.chance(10) ? "  " : " ") + a.name + "=\""
                + escaped(a.value.text) + "\"";
        }
        text += ">";
    }

    void write(Node const& node, std::string const& extra="")
    {
        if(node.chars_before) {
            text += "words";
            new_line();
            Node chars;
            chars.tag = "";
            token("chars", chars, false);
        }
        if(rng.chance(5)) { text += "<!-- <blah/> -->"; new_line(); }
        if(node.leaf) {
            token("leaf", node, true);
            open(node, extra);
            std::string t;
            for(auto const& v: node.values) {
                if(&v != &node.values[0]) t += " ";
                t += v.text;
            }
            bool const cdata = !t.empty() && rng.chance(5);
            text += cdata ? "<![CDATA[" + t + "]]>" : escaped(t);
            text += "</" + prefix + node.tag + ">";
            new_line();
            return;
        }
        token("open", node, true);
        open(node, extra);
        new_line();
        for(auto const& c: node.children) {
            write(c);
            if(ended) return;
        }
        if(node.cut) {
            token("end", node, false);
            ended = true;
            return;
        }
        if(node.broken) {
            Node other;
            other.tag = node.tag + "x";
            token("close", other, false);
            text += "</" + prefix + other.tag + ">";
            ended = true;
        }
        else {
            token("close", node, false);
            text += "</" + prefix + node.tag + ">";
        }
        new_line();
    }

    void head()
    {
        if(rng.chance(80)) { text += "<?xml version=\"1.0\"?>"; new_line(); }
        // A declaration must come first.
        while(text.size() > 0 && text[0] != '<') text.erase(0, 1);
        if(rng.chance(10)) {
            text += "<!-- a comment\nof two lines -->";
            line += 1;
            new_line();
        }
    }
};

// All nodes that are not leaves, and all leaves.
void nodes(Node& node, std::vector<Node*>& inner, std::vector<Node*>& leaves)
{
    (node.leaf ? leaves : inner).push_back(&node);
    for(auto& c: node.children) nodes(c, inner, leaves);
}

// -----------------------------------------------------------------------------
// Tracks.

Node leaf(std::string const& tag, Value const& value)
{
    Node node{tag};
    node.leaf = true;
    node.values = {value};
    return node;
}

Node text_leaf(Rng& rng, std::string const& tag)
{
    return leaf(tag, {rng.pick<std::string>({"a", "b c", "", "x<y & z", "12",
        "\"q\"", "name", "a.b/c"}), false, 0});
}

std::string two(int64_t n)
{
    return (n < 10 ? "0" : "") + std::to_string(n);
}

Node time_leaf(Rng& rng)
{
    std::string text = std::to_string(rng.range(1990, 2030)) + "-"
        + two(rng.range(1, 12)) + "-" + two(rng.range(1, 28)) + "T"
        + two(rng.range(0, 23)) + ":" + two(rng.range(0, 59)) + ":"
        + two(rng.range(0, 59));
    text += rng.pick<std::string>({"Z", "Z", "", "+01:00", "-05:30"});
    return leaf("time", {text, true, 0});
}

Node point(Rng& rng, std::string const& tag)
{
    Node node{tag};
    int64_t const lat = rng.chance(10) ? rng.pick<int64_t>({-900000, 900000, 0})
        : rng.range(-900000, 900000);
    int64_t const lon = rng.chance(10) ? rng.pick<int64_t>({-1800000, 1800000,
        1799999, 0}) : rng.range(-1800000, 1799999);
    node.attributes = {{"lat", number(rng, lat, 10000, 4)},
        {"lon", number(rng, lon, 10000, 4)}};
    if(rng.chance(30)) std::swap(node.attributes[0], node.attributes[1]);
    if(rng.chance(40)) {
        node.children.push_back(leaf("ele", number(rng,
            rng.range(-99999, 99999), 10, 1)));
    }
    if(rng.chance(30)) node.children.push_back(time_leaf(rng));
    if(rng.chance(30)) node.children.push_back(text_leaf(rng, "name"));
    if(rng.chance(10)) node.children.push_back(text_leaf(rng, "cmt"));
    return node;
}

void described(Rng& rng, Node& node)
{
    if(rng.chance(50)) node.children.push_back(text_leaf(rng, "name"));
    if(rng.chance(20)) node.children.push_back(text_leaf(rng, "desc"));
    if(rng.chance(30)) {
        int64_t const n = rng.range(0, 1000000);
        node.children.push_back(leaf("number", {std::to_string(n), true,
            n}));
    }
}

Node track_document(Rng& rng, int version)
{
    Node root{"gpx"};
    root.attributes = {{"version", {version == 0 ? "1.0" : "1.1", false, 0}},
        {"creator", {rng.pick<std::string>({"me", "", "a & b"}), false, 0}}};
    if(version == 0) {
        if(rng.chance(50)) root.children.push_back(text_leaf(rng, "name"));
        if(rng.chance(20)) root.children.push_back(text_leaf(rng, "desc"));
        if(rng.chance(20)) root.children.push_back(time_leaf(rng));
    }
    else if(rng.chance(50)) {
        Node metadata{"metadata"};
        if(rng.chance(60)) metadata.children.push_back(text_leaf(rng, "name"));
        if(rng.chance(20)) metadata.children.push_back(text_leaf(rng, "desc"));
        if(rng.chance(20)) metadata.children.push_back(time_leaf(rng));
        root.children.push_back(metadata);
    }
    for(auto n = rng.range(0, 2); n > 0; --n) {
        root.children.push_back(point(rng, "wpt"));
    }
    for(auto n = rng.range(0, 1); n > 0; --n) {
        Node rte{"rte"};
        described(rng, rte);
        for(auto m = rng.range(0, 2); m > 0; --m) {
            rte.children.push_back(point(rng, "rtept"));
        }
        root.children.push_back(rte);
    }
    for(auto n = rng.range(0, 2); n > 0; --n) {
        Node trk{"trk"};
        described(rng, trk);
        for(auto m = rng.range(0, 2); m > 0; --m) {
            Node seg{"trkseg"};
            for(auto k = rng.range(0, 2); k > 0; --k) {
                seg.children.push_back(point(rng, "trkpt"));
            }
            trk.children.push_back(seg);
        }
        root.children.push_back(trk);
    }
    return root;
}

void spoil_tracks(Rng& rng, Node& root)
{
    std::vector<Node*> inner, leaves;
    nodes(root, inner, leaves);
    Node& node = *rng.pick(inner);
    auto at = [&](Node& n) {
        return n.children.begin() + rng.range(0, n.children.size());
    };
    switch(rng.range(0, 11)) {
        case 0: {
            auto const p = at(node);
            Node blah{"blah"};
            blah.leaf = rng.chance(50);
            node.children.insert(p, blah);
            break;
        }
        case 1: {
            if(node.children.size() < 2) break;
            size_t const k = rng.range(0, node.children.size() - 2);
            std::swap(node.children[k], node.children[k + 1]);
            break;
        }
        case 2: {
            if(node.children.empty()) break;
            Node const copy = rng.pick(node.children);
            auto const p = at(node);
            node.children.insert(p, copy);
            break;
        }
        case 3: {
            if(node.attributes.empty()) break;
            node.attributes.erase(node.attributes.begin()
                + rng.range(0, node.attributes.size() - 1));
            break;
        }
        case 4: {
            node.attributes.push_back({"alt", {"1", true, 1}});
            break;
        }
        case 5: {
            if(node.attributes.empty()) break;
            auto& v = node.attributes[rng.range(0, node.attributes.size() - 1)]
                .value;
            v = rng.chance(50)
                ? Value{rng.pick<std::string>({"abc", "", "1,5", "--1"}), false,
                    0}
                : number(rng, rng.pick<int64_t>({900001, -900001, 1800000,
                    1800001, -1800001, -1800000, 5000000}), 10000, 4);
            break;
        }
        case 6: case 7: {
            if(leaves.empty()) break;
            Node& l = *rng.pick(leaves);
            l.values = {{rng.pick<std::string>({"abc", "", "1,5", "-1-", "x1"}),
                false, 0}};
            break;
        }
        case 8: {
            if(node.children.empty()) break;
            node.children[rng.range(0, node.children.size() - 1)].chars_before
                = true;
            break;
        }
        case 9: {
            auto const p = at(node);
            std::string const tag = rng.pick<std::string>({"name", "wpt", "rte",
                "trk", "trkseg", "trkpt", "rtept", "number", "time"});
            if(tag.find("pt") != std::string::npos) {
                node.children.insert(p, point(rng, tag));
            }
            else if(tag == "name") node.children.insert(p, text_leaf(rng, tag));
            else if(tag == "time") node.children.insert(p, time_leaf(rng));
            else if(tag == "number") {
                node.children.insert(p, leaf(tag, {"7", true, 7}));
            }
            else node.children.insert(p, Node{tag});
            break;
        }
        case 10: node.broken = true; break;
        default: node.cut = true; break;
    }
}

std::string one(bool has, std::string const& text)
{
    return has ? str_list({text}) : "[]";
}

template<typename T> std::string name_of(T const& t)
{
    return one(t.name().present(), t.name().present() ? t.name().get() : "");
}

template<typename T> std::string number_of(T const& t)
{
    return t.number().present() ? "[" + std::to_string(t.number().get()) + "]"
        : "[]";
}

// -9: not that number.
int64_t scaled(double v, int64_t scale)
{
    int64_t const n = std::llround(v * scale);
    return static_cast<double>(n) / scale == v ? n : -9999999;
}

template<typename P> std::string point_of(P const& p)
{
    Json j;
    j.i("lat", scaled(p.lat(), 10000)).i("lon", scaled(p.lon(), 10000));
    j.raw("ele", p.ele().present() ? "[" + std::to_string(scaled(p.ele().get(),
        10)) + "]" : "[]");
    std::string time = "[]";
    if(p.time().present()) {
        auto const& t = p.time().get();
        std::string text = std::to_string(t.year()) + "-" + two(t.month()) + "-"
            + two(t.day()) + "T" + two(t.hours()) + ":" + two(t.minutes()) + ":"
            + two(static_cast<int64_t>(t.seconds()));
        if(t.zone_present()) {
            int const z = t.zone_hours() * 60 + t.zone_minutes();
            text += z == 0 ? "Z" : (z < 0 ? "-" : "+") + two(std::abs(z) / 60)
                + ":" + two(std::abs(z) % 60);
        }
        time = str_list({text});
    }
    j.raw("time", time).raw("name", name_of(p));
    return j.text + "}";
}

std::string join(std::vector<std::string> const& items)
{
    std::string t = "[";
    for(auto const& s: items) t += (t.size() > 1 ? "," : "") + s;
    return t + "]";
}

template<typename G> std::string tracks_of(G const& g, std::string const& name)
{
    std::vector<std::string> wpts, rtes, trks;
    for(auto const& p: g.wpt()) wpts.push_back(point_of(p));
    for(auto const& r: g.rte()) {
        std::vector<std::string> points;
        for(auto const& p: r.rtept()) points.push_back(point_of(p));
        Json j;
        j.raw("name", name_of(r)).raw("number", number_of(r))
            .raw("points", join(points));
        rtes.push_back(j.text + "}");
    }
    for(auto const& t: g.trk()) {
        std::vector<std::string> segs;
        for(auto const& s: t.trkseg()) {
            std::vector<std::string> points;
            for(auto const& p: s.trkpt()) points.push_back(point_of(p));
            segs.push_back(join(points));
        }
        Json j;
        j.raw("name", name_of(t)).raw("number", number_of(t))
            .raw("segs", join(segs));
        trks.push_back(j.text + "}");
    }
    Json j;
    j.raw("name", name).s("creator", g.creator()).raws("wpts", wpts)
        .raws("rtes", rtes).raws("trks", trks);
    return j.text + "}";
}

void tracks(Rng& rng)
{
    int const version = static_cast<int>(rng.range(0, 1));
    int const as = rng.chance(4) ? 1 - version : version;
    std::string const file = rng.pick<std::string>({"a.gpx", "b c.gpx",
        "./d.xml"});
    std::string const state = rng.chance(3) ? "missing"
        : rng.chance(3) ? "unreadable" : "ok";
    Node root = track_document(rng, version);
    if(rng.chance(50)) spoil_tracks(rng, root);
    Writer writer{rng, "", "", {}};
    std::string const ns = "http://www.topografix.com/GPX/1/"
        + std::to_string(version);
    writer.head();
    writer.write(root, " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\""
        " xmlns=\"" + ns + "\" xsi:schemaLocation=\"" + ns + " file://" + scratch
        + "/gpx-1." + std::to_string(version) + ".xsd\"");
    Json j;
    j.s("op", "tracks").i("version", version).i("as", as).s("file", file)
        .s("state", state).raws("tokens", writer.tokens);
    ev::begin(j);
    if(state == "missing") ::unlink(file.c_str());
    else {
        std::ofstream stream(file);
        stream << writer.text;
        stream.close();
        ::chmod(file.c_str(), state == "ok" ? 0644 : 0);
    }
    bool const user = ::geteuid() == 0 && state == "unreadable";
    if(user && ::seteuid(65534) != 0) _exit(75);
    std::string error, result = "{}", kind = "read";
    try {
        if(as == 0) {
            auto const g = io::gpx_1_0::parse(file);
            result = tracks_of(*g, name_of(*g));
        }
        else {
            auto const g = io::gpx_1_1::parse(file);
            result = tracks_of(*g, g->metadata().present()
                ? name_of(g->metadata().get()) : "[]");
        }
    }
    catch(IOError const& e) { kind = "IOError"; error = e.message(); }
    catch(ParseError const& e) { kind = "ParseError"; error = e.message(); }
    catch(std::exception const& e) { kind = "other"; error = e.what(); }
    if(user && ::seteuid(0) != 0) _exit(75);
    ::unlink(file.c_str());
    j.s("kind", kind).s("error", error).raw("result", result);
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Distributions.

void distributions(Rng& rng)
{
    // The text of n / scale in decimals needs the digits of a binary fraction.
    auto binary = [](int64_t n, int bits, int digits) {
        std::string t = std::to_string(std::abs(n) >> bits) + ".";
        int64_t rest = std::abs(n) & ((int64_t{1} << bits) - 1);
        for(int k = 0; k < digits; ++k) {
            rest *= 10;
            t += static_cast<char>('0' + (rest >> bits));
            rest &= (int64_t{1} << bits) - 1;
        }
        return (n < 0 ? "-" : "") + t;
    };
    auto parameter = [&](std::string const& tag) {
        Node node{tag};
        node.leaf = true;
        int64_t const s = rng.range(1, 40000);
        int64_t const n = tag == "mean" ? rng.range(-10000000, 10000000)
            : rng.chance(50) ? s * s : rng.range(1, 2000000000);
        std::string text = tag == "mean" ? binary(n, 6, 6) : binary(n, 12, 12);
        if(rng.chance(50)) {
            while(text.back() == '0') text.pop_back();
            if(text.back() == '.' && rng.chance(80)) text.pop_back();
        }
        if(rng.chance(10)) text += rng.pick<std::string>({"e0", "E0", "e+00"});
        if(rng.chance(10)) text = "0" + text;
        if(text[0] == '0' && text.size() > 1 && text[1] == '-') {
            text = text.substr(1);
        }
        node.values = {{text, true, n}};
        return node;
    };
    Node root{"NormalDistribution"};
    root.children = {parameter("mean"), parameter("variance")};
    std::string ns = "http://www.uncertml.org/2.0";
    if(rng.chance(50)) {
        Node& node = root.children[rng.range(0, 1)];
        switch(rng.range(0, 12)) {
            case 0: root.tag = rng.pick<std::string>({"Normal", "mean",
                "normalDistribution"}); break;
            case 1: ns += "0"; break;
            case 2: std::swap(root.children[0], root.children[1]); break;
            case 3: root.children.pop_back(); break;
            case 4: root.children.erase(root.children.begin()); break;
            case 5: root.children.push_back(parameter(
                rng.pick<std::string>({"mean", "variance", "blah"}))); break;
            case 6: root.children.insert(root.children.begin(), parameter(
                rng.pick<std::string>({"mean", "variance", "blah"}))); break;
            case 7: node.values = {{rng.pick<std::string>({"abc", "1,5", "--1",
                "1x"}), false, 0}}; break;
            case 8: node.values.clear(); break;
            case 9: node.values.push_back(node.values[0]); break;
            case 10: node.values = {{rng.pick<std::string>({"0", "0.0", "-0"}),
                true, 0}}; break;
            case 11: node.values = {{"-1", true, node.tag == "mean" ? -64
                : -4096}}; break;
            default: if(rng.chance(50)) root.broken = true;
                else root.cut = true;
        }
    }
    std::string const prefix = rng.pick<std::string>({"un:", "", "x:"});
    Writer writer{rng, prefix, "", {}};
    writer.head();
    writer.write(root, " xmlns" + (prefix.empty() ? std::string() : ":"
        + prefix.substr(0, prefix.size() - 1)) + "=\"" + ns + "\"");
    Json j;
    j.s("op", "distribution").s("ns", ns).raws("tokens", writer.tokens);
    ev::begin(j);
    std::string kind = "read", source;
    int64_t mean = 0, deviation = 0, line = -1;
    bool exact = false;
    try {
        UncertML2Parser const parser;
        auto const uncertainty = parser.parse(writer.text);
        auto const normal = std::dynamic_pointer_cast<
            NormalDistribution<double>>(uncertainty);
        if(!normal) kind = "other distribution";
        else {
            mean = static_cast<int64_t>(normal->mean() * 64);
            if(static_cast<double>(mean) / 64 != normal->mean()) mean = -1;
            double const d = normal->standard_deviation() * 64;
            deviation = static_cast<int64_t>(d);
            exact = static_cast<double>(deviation) == d;
        }
    }
    catch(fern::detail::ParseError const& e) {
        kind = "ParseError";
        auto const n = boost::get_error_info<fern::detail::ExceptionLineNr>(e);
        auto const s = boost::get_error_info<fern::detail::ExceptionSourceName>(
            e);
        auto const m = boost::get_error_info<fern::detail::ExceptionMessage>(e);
        line = n ? *n : -2;
        source = s ? *s : "";
        if(!m || m->empty()) source = "no message";
    }
    catch(std::exception const& e) { kind = "other"; source = e.what(); }
    j.s("kind", kind).s("source", source).i("line", line).i("mean", mean)
        .i("deviation", deviation).b("exact", exact);
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Normal distributions.

template<typename T>
void normal_as(Rng& rng, char const* type)
{
    int64_t const m = rng.range(-1000000, 1000000);
    int64_t const d = rng.chance(20) ? 0 : rng.range(1, 1000000);
    uint32_t const seed = static_cast<uint32_t>(rng.range(1, 1000));
    Json j;
    j.s("op", "normal").s("type", type).i("m", m).i("d", d);
    ev::begin(j);
    using N = NormalDistribution<T>;
    auto shown = [](N const& n) {
        std::vector<int64_t> v;
        for(T x: {n.mean(), n.standard_deviation()}) {
            v.push_back(scaled(static_cast<double>(x), 16));
        }
        return v;
    };
    auto samples = [&](N const& n) {
        std::mt19937 generator(seed);
        std::vector<T> v;
        for(int k = 0; k < 8; ++k) v.push_back(n(generator));
        return v;
    };
    N const first(static_cast<T>(m) / 16, static_cast<T>(d) / 16);
    N copy(first);
    N moved(std::move(copy));
    N assigned(1, 2);
    assigned = first;
    auto const some = samples(N(first));
    bool same = samples(N(moved)) == some && samples(N(assigned)) == some;
    bool all_mean = true;
    for(T x: some) all_mean = all_mean && x == first.mean();
    j.is("first", shown(first)).is("moved", shown(moved))
        .is("assigned", shown(assigned)).b("same", same).b("all", all_mean);
    ev::end(j);
}

void normal(Rng& rng)
{
    if(rng.chance(50)) normal_as<float>(rng, "float32");
    else normal_as<double>(rng, "float64");
}

} // namespace

int main(int argc, char** argv)
{
    if(argc != 5) return ev::main(argc, argv);
    ev::kinds() = {tracks, distributions, tracks, normal};
    std::string const out = fs::absolute(argv[4]).string();
    char dir[] = "/tmp/fern-documents-XXXXXX";
    if(!mkdtemp(dir)) return 73;
    scratch = fs::canonical(dir).string();
    ::chmod(scratch.c_str(), 0755);
    for(char const* name: {"gpx-1.0.xsd", "gpx-1.1.xsd"}) {
        fs::copy(std::string(GPX_DIR) + "/" + name, scratch + "/" + name);
    }
    pid_t const pid = fork();
    if(pid == 0) {
        if(chdir(scratch.c_str()) != 0) _exit(74);
        argv[4] = const_cast<char*>(out.c_str());
        int const status = ev::main(argc, argv);
        std::fflush(nullptr);
        _exit(status);
    }
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    fs::remove_all(scratch);
    return WIFEXITED(status) ? WEXITSTATUS(status) : 70;
}
