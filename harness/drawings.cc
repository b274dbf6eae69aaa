// Drawings (graphs in the DOT language) of programs; programs without names
// that are used once.
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>
#include "fern/language/operation/core/operations.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/visitor/annotate_visitor.h"
#include "fern/language/ast/visitor/ast_dot_visitor.h"
#include "fern/language/ast/visitor/flowgraph_dot_visitor.h"
#include "fern/language/ast/visitor/identify_visitor.h"
#include "fern/language/ast/visitor/optimize_visitor.h"
#include "fern/language/ast/visitor/thread_visitor.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "program.h"

namespace {

using namespace fern;
using namespace prog;

// -----------------------------------------------------------------------------
// What a text in the DOT language draws.

struct Graph
{
    struct Vertex { std::string name, label; };
    struct Edge { std::string from, to; bool coloured; };
    struct Cluster { std::string name, label; int in; };
    bool ok{true};
    std::vector<Vertex> vertices;
    std::vector<Edge> edges;
    std::vector<Cluster> clusters;
};

class Dot
{
public:
    explicit Dot(std::string const& text): _text(text) { graph(); }

    Graph result;

private:
    using Attributes = std::map<std::string, std::string>;

    std::string const& _text;
    size_t _at{0};
    int _cluster{-1};

    struct Wrong {};

    void graph()
    {
        try {
            word("digraph");
            id();
            block();
            if(!peek().empty()) throw Wrong();
        }
        catch(Wrong const&) { result.ok = false; }
    }

    void space()
    {
        while(_at < _text.size() && std::isspace(
                static_cast<unsigned char>(_text[_at]))) {
            ++_at;
        }
    }

    // The next token, without taking it: a character, or the start of an id.
    std::string peek()
    {
        space();
        return _text.substr(_at, 1);
    }

    bool take(std::string const& token)
    {
        space();
        if(_text.compare(_at, token.size(), token) != 0) return false;
        _at += token.size();
        return true;
    }

    void need(std::string const& token) { if(!take(token)) throw Wrong(); }

    static bool in_word(char c)
    {
        return std::isalnum(static_cast<unsigned char>(c)) || c == '_';
    }

    void word(std::string const& w) { if(id() != w) throw Wrong(); }

    bool is_word(std::string const& w)
    {
        space();
        return _text.compare(_at, w.size(), w) == 0
            && (_at + w.size() >= _text.size() || !in_word(_text[_at + w.size()]));
    }

    // A name, a number or a quoted text; of the last escapes are kept.
    std::string id()
    {
        space();
        std::string result;
        if(_at < _text.size() && _text[_at] == '"') {
            for(++_at; _at < _text.size() && _text[_at] != '"'; ++_at) {
                if(_text[_at] == '\0') throw Wrong();
                if(_text[_at] == '\\') {
                    result += _text[_at++];
                    if(_at >= _text.size()) throw Wrong();
                }
                result += _text[_at];
            }
            if(_at >= _text.size()) throw Wrong();
            ++_at;
            return result;
        }
        size_t const from = _at;
        if(_at < _text.size()
                && (in_word(_text[_at]) || _text[_at] == '.'
                    || _text[_at] == '-')) {
            if(std::isdigit(static_cast<unsigned char>(_text[_at]))
                    || _text[_at] == '.' || _text[_at] == '-') {
                ++_at;
                while(_at < _text.size()
                    && (std::isdigit(static_cast<unsigned char>(_text[_at]))
                        || _text[_at] == '.')) {
                    ++_at;
                }
            }
            else {
                while(_at < _text.size() && in_word(_text[_at])) ++_at;
            }
        }
        if(from == _at) throw Wrong();
        return _text.substr(from, _at - from);
    }

    // What an escaped text shows.
    static std::string shown(std::string const& text)
    {
        std::string result;
        for(size_t k = 0; k < text.size(); ++k) {
            if(text[k] == '\\' && k + 1 < text.size()) {
                ++k;
                result += text[k] == 'n' ? '\n' : text[k];
            }
            else result += text[k];
        }
        for(char& c: result) {
            if(c != '\n' && (c < ' ' || c > '~')) c = '?';
        }
        return result;
    }

    Attributes attributes()
    {
        Attributes result;
        while(take("[")) {
            while(!take("]")) {
                std::string const name = id();
                need("=");
                result[name] = id();
                if(!take(",")) take(";");
            }
        }
        return result;
    }

    void block()
    {
        need("{");
        while(!take("}")) {
            if(peek().empty()) throw Wrong();
            statement();
            take(";");
        }
    }

    void statement()
    {
        if(is_word("subgraph") || peek() == "{") {
            Graph::Cluster c{"", "", _cluster};
            if(is_word("subgraph")) {
                word("subgraph");
                if(peek() != "{") c.name = id();
            }
            int const outer = _cluster;
            _cluster = static_cast<int>(result.clusters.size());
            result.clusters.push_back(c);
            block();
            _cluster = outer;
            return;
        }
        std::string const name = id();
        if(take("=")) {
            std::string const value = id();
            if(name == "label" && _cluster >= 0) {
                result.clusters[static_cast<size_t>(_cluster)].label =
                    shown(value);
            }
            return;
        }
        if(name == "node" || name == "edge" || name == "graph") {
            attributes();
            return;
        }
        if(take("->")) {
            std::vector<std::string> names{name, id()};
            while(take("->")) names.push_back(id());
            auto a = attributes();
            for(size_t k = 1; k < names.size(); ++k) {
                result.edges.push_back({names[k - 1], names[k],
                    a.count("color") > 0});
            }
            return;
        }
        auto a = attributes();
        result.vertices.push_back({name,
            a.count("label") ? shown(a["label"]) : name});
    }
};

// Addresses are the names of vertices.
std::string address(fl::AstVertex const* x)
{
    std::ostringstream stream;
    stream << x;
    return stream.str();
}

using Ids = std::map<std::string, int>;

Ids addresses(Vertices const& vertices)
{
    Ids result;
    for(auto const& pair: vertices.by_id) {
        result[address(pair.second)] = pair.first;
    }
    return result;
}

int id(Ids const& ids, std::string const& name)
{
    auto const it = ids.find(name);
    return it == ids.end() ? -9999 : it->second;
}

// Numbers with a fraction are drawn with some of their digits.
std::string about(std::string const& drawn, std::string const& value)
{
    if(drawn == value || drawn.empty()) return drawn;
    char* end = nullptr;
    double const x = std::strtod(drawn.c_str(), &end);
    double const y = std::strtod(value.c_str(), nullptr);
    return *end == '\0' && std::abs(x - y) <= 1e-4 * std::abs(y) ? value : drawn;
}

using Texts = std::map<int, std::string>;

void fractions(Block const& block, Texts& result)
{
    for(auto const& x: block) {
        if(x.k == "num" && x.n[0] == 'f') result[x.id] = x.v;
        fractions(x.a, result);
        for(auto const& b: x.b) fractions(b, result);
    }
}

std::vector<std::string> lines(std::string const& text)
{
    std::vector<std::string> result{""};
    for(char c: text) {
        if(c == '\n') result.push_back(""); else result.back() += c;
    }
    return result;
}

std::string json(Graph const& graph, Ids const& ids, Texts const& numbers)
{
    std::vector<std::string> vertices, edges, clusters;
    for(auto const& x: graph.vertices) {
        auto text = lines(x.label);
        int const k = id(ids, x.name);
        if(numbers.count(k)) text[0] = about(text[0], numbers.at(k));
        Json j;
        j.i("id", k).s("text", text[0]).raw("more", ev::str_list(
            std::vector<std::string>(text.begin() + 1, text.end())));
        vertices.push_back(j.text + "}");
    }
    for(auto const& x: graph.edges) {
        Json j;
        j.i("from", id(ids, x.from)).i("to", id(ids, x.to))
            .b("coloured", x.coloured);
        edges.push_back(j.text + "}");
    }
    for(auto const& x: graph.clusters) {
        Json j;
        // The address is at the end of the name.
        size_t const at = x.name.find("0x");
        j.i("id", at == std::string::npos ? -9999 : id(ids, x.name.substr(at)))
            .s("text", x.label).i("in", x.in + 1);
        clusters.push_back(j.text + "}");
    }
    Json j;
    j.b("ok", graph.ok).raws("vertices", vertices).raws("edges", edges)
        .raws("clusters", clusters);
    return j.text + "}";
}

bool has(Block const& block, std::string const& kind)
{
    for(auto const& x: block) {
        if(x.k == kind || has(x.a, kind)) return true;
        for(auto const& b: x.b) if(has(b, kind)) return true;
    }
    return false;
}

// Parts of features (attr) are not drawn by the code.
Block drawable(Rng& rng, Options const& o)
{
    for(;;) {
        Block const result = Generator(rng, o).program();
        if(!has(result, "attr")) return result;
    }
}

std::string types(fl::ExpressionVertex const& x)
{
    if(x.expression_types().is_empty()) return "dt: -\nvt: -";
    return "dt: " + x.expression_types()[0].data_type().to_string() + "\nvt: "
        + x.expression_types()[0].value_type().to_string();
}

void tree(Rng& rng)
{
    Options o;
    bool const threaded = rng.chance(60), named = rng.chance(60);
    // The visitor that threads a tree knows no while, those that identify and
    // annotate no function definitions.
    o.whiles = !threaded;
    o.defs = !named && rng.chance(50);
    bool const annotated = named && rng.chance(50);
    o.parts = !annotated;
    o.once = o.plain_tail = true;
    o.any_target = !named;
    o.expression_depth = 2;
    Block const program = drawable(rng, o);
    std::string const source = rng.pick<std::string>(
        {"m", "", "a.ran", "<string>", "a b", "a\"b", "c:\\d"});
    Json j;
    j.s("op", "tree").raw("program", json(program)).s("source", source)
        .b("threaded", threaded).b("named", named);
    ev::begin(j);
    auto const module = fl::XmlParser().parse_string(
        Xml(rng, false)(program, source));
    Vertices const vertices(program, *module);
    Ids const ids = addresses(vertices);
    Texts numbers;
    fractions(program, numbers);
    if(threaded) { fl::ThreadVisitor v; module->Accept(v); }
    if(named) { fl::IdentifyVisitor v; module->Accept(v); }
    if(annotated) {
        fl::AnnotateVisitor v(std::make_shared<fl::Operations>(
            std::vector<fl::OperationPtr>{}));
        module->Accept(v);
    }
    std::vector<std::string> drawn;
    bool again = true;
    for(int modes: {0, 4, 8, 12}) {
        fl::AstDotVisitor v(modes);
        if(rng.chance(20)) {
            auto const other = fl::XmlParser().parse_string(
                Xml(rng, false)(drawable(rng, o), "m"));
            other->Accept(v);
        }
        module->Accept(v);
        std::string const text = v.script();
        drawn.push_back(json(Dot(text).result, ids, numbers));
        if(rng.chance(20)) {
            module->Accept(v);
            again = again && v.script() == text;
        }
    }
    std::vector<std::string> said;
    for(auto const& pair: vertices.by_id) {
        auto const* x = dynamic_cast<fl::ExpressionVertex*>(pair.second);
        Json k;
        k.i("id", pair.first).raw("more", ev::str_list(
            x ? lines(types(*x)) : std::vector<std::string>{}));
        said.push_back(k.text + "}");
    }
    j.raws("drawn", drawn).raws("types", said).b("again", again);
    ev::end(j);
}

void flow(Rng& rng)
{
    Options o;
    o.parts = true;
    o.expression_depth = 2;
    o.names = rng.range(2, 6);
    bool const named = rng.chance(75);
    Block const program = drawable(rng, o);
    Json j;
    j.s("op", "flow").raw("program", json(program)).b("named", named);
    ev::begin(j);
    auto const module = fl::XmlParser().parse_string(
        Xml(rng, false)(program, "m"));
    Vertices const vertices(program, *module);
    Texts numbers;
    fractions(program, numbers);
    if(named) { fl::IdentifyVisitor v; module->Accept(v); }
    fl::FlowgraphDotVisitor v;
    module->Accept(v);
    j.raw("drawn", json(Dot(v.script()).result, addresses(vertices), numbers));
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Names that are used once.

void simplify(Rng& rng)
{
    // Each name is assigned once, before it is used.
    std::vector<std::string> const names{"a", "b", "c", "d", "e", "f", "g"};
    Block program;
    int next = 0, size = static_cast<int>(rng.range(0, 7));
    for(int k = 0; k < size; ++k) {
        auto node = [&](char const* kind) {
            Node n;
            n.id = ++next;
            n.k = kind;
            return n;
        };
        Node s = node("assign"), t = node("name");
        t.n = names[static_cast<size_t>(k)];
        Node x;
        int const what = static_cast<int>(rng.range(0, 9));
        if(what <= 5 && k > 0) {
            x = node("name");
            x.n = names[static_cast<size_t>(rng.range(0, k - 1))];
        }
        else if(what <= 6) { x = node("name"); x.n = rng.pick<std::string>({"p", "q"}); }
        else if(what <= 8) {
            x = node("num");
            x.n = "int32";
            x.v = std::to_string(rng.range(0, 99));
        }
        else { x = node("str"); x.v = rng.pick<std::string>({"", "a", "x y"}); }
        s.a = {t, x};
        program.push_back(s);
    }
    Json j;
    j.s("op", "simplify").raw("program", json(program));
    ev::begin(j);
    auto const module = fl::XmlParser().parse_string(
        Xml(rng, false)(program, "m"));
    { fl::IdentifyVisitor v; module->Accept(v); }
    fl::OptimizeVisitor v;
    module->Accept(v);
    std::vector<std::string> left;
    for(auto const& statement: module->scope()->statements()) {
        Json x;
        auto const* s = dynamic_cast<fl::AssignmentVertex*>(statement.get());
        auto const* t = s
            ? dynamic_cast<fl::NameVertex*>(s->target().get()) : nullptr;
        x.s("n", t ? t->name() : "?");
        auto const* e = s ? s->expression().get() : nullptr;
        if(auto const* name = dynamic_cast<fl::NameVertex const*>(e)) {
            x.s("k", "name").s("v", name->name());
        }
        else if(auto const* number
                = dynamic_cast<fl::NumberVertex<int32_t> const*>(e)) {
            x.s("k", "num").s("v", std::to_string(number->value()));
        }
        else if(auto const* text = dynamic_cast<fl::StringVertex const*>(e)) {
            x.s("k", "str").s("v", text->value());
        }
        else x.s("k", "?").s("v", "");
        left.push_back(x.text + "}");
    }
    j.raws("left", left);
    ev::end(j);
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {tree, tree, flow, simplify};
    return ev::main(argc, argv);
}
