// Programs: generated, as JSON, as XML, and as found in a syntax tree.
#pragma once
#include <cassert>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "fern/language/ast/core/vertices.h"
#include "events.h"

namespace prog {

namespace fl = fern::language;
using ev::Json;
using ev::Rng;

struct Node
{
    std::string k;                       // Kind.
    int id{0};                           // Of expressions and statements.
    std::vector<int> p{0, 0}, q{0, 0};   // Position as expression, statement.
    std::string n, v;                    // Name, text.
    std::vector<Node> a;                 // Expressions.
    std::vector<std::vector<Node>> b;    // Blocks.
    std::vector<int> s;                  // Ids of the blocks' scopes.
};
using Block = std::vector<Node>;

inline std::string json(Block const& block);

inline std::string json(Node const& x)
{
    std::vector<std::string> blocks;
    for(auto const& block: x.b) { blocks.push_back(json(block)); }
    Json j;
    j.s("k", x.k).i("id", x.id).is("p", x.p).is("q", x.q).s("n", x.n)
        .s("v", x.v).raw("a", json(x.a)).raws("b", blocks).is("s", x.s);
    return j.text + "}";
}

inline std::string json(Block const& block)
{
    std::string text;
    for(auto const& x: block) {
        text += (text.empty() ? "" : ",") + json(x);
    }
    return "[" + text + "]";
}

struct Options
{
    bool defs{false}, whiles{false}, parts{false}, any_target{false};
    bool plain_tail{false};              // No definition after a return.
    bool once{false};                    // Defined functions: called once.
    int names{4};
    int statements{5}, depth{2}, expression_depth{3};
    bool numbers_only_common{false};
    std::vector<std::pair<std::string, int>> calls;   // Name, arguments (-1:
                                                      // any number).
    bool operators{true};
};

class Generator
{
public:
    Generator(Rng& rng, Options const& options): _rng(rng), _o(options) {}

    Block program()
    {
        return block(_o.depth, _rng.range(0, _o.statements), false);
    }

    std::vector<std::string> defined;

    static std::vector<std::string> const& unary()
    {
        static std::vector<std::string> const result = {"Invert", "Not",
            "UnaryAdd", "UnarySub"};
        return result;
    }

    static std::vector<std::string> const& binary()
    {
        static std::vector<std::string> const result = {"add", "Sub", "Mult",
            "Div", "Mod", "Pow", "LShift", "RShift", "BitOr", "BitXor",
            "BitAnd", "FloorDiv", "And", "Or", "Eq", "NotEq", "Lt", "LtE",
            "Gt", "GtE"};
        return result;
    }

private:
    Rng& _rng;
    Options const& _o;
    int _id{0};
    int _functions{0};
    std::set<std::string> _called;
    std::vector<std::set<std::string>> _blocks;  // Functions per block.

    std::vector<int> position()
    {
        return {static_cast<int>(_rng.range(0, 40)),
            static_cast<int>(_rng.range(0, 70))};
    }

    std::string name()
    {
        static std::vector<std::string> const all = {"a", "b", "c", "ab", "a_1",
            "Bc", "abc", "x"};
        return all[_rng.range(0, _o.names - 1)];
    }

    std::string string()
    {
        static std::vector<std::string> const all = {"a", "b", "<", ">", "&",
            "'", "\"", " ", "1", "x", ";", "#", "\\", "]]"};
        std::string result;
        for(int k = _rng.range(0, 6); k > 0; --k) { result += _rng.pick(all); }
        return result;
    }

    void number(Node& x)
    {
        static std::vector<std::string> const types = {"int8", "int16",
            "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32",
            "float64"};
        x.k = "num";
        x.n = _rng.pick(types);
        if(_rng.chance(40)) {
            x.n = _rng.pick<std::string>({"int64", "int32", "float64"});
        }
        if(x.n[0] == 'f') {
            static std::vector<std::string> const fraction = {"", ".5", ".25",
                ".75"};
            x.v = std::to_string(_rng.range(-900, 900)) + _rng.pick(fraction);
            if(x.v == "0") { x.v = "1"; }
            return;
        }
        bool const is_signed = x.n[0] == 'i';
        int const bits = std::stoi(x.n.substr(is_signed ? 3 : 4));
        // An integer's value is at most 32 bits.
        int const b = is_signed ? std::min(bits, 32) : bits;
        uint64_t const top = is_signed ? (1ull << (b - 1)) - 1 :
            b == 64 ? ~0ull : (1ull << b) - 1;
        if(_rng.chance(15)) { x.v = std::to_string(top); return; }
        if(is_signed && _rng.chance(15)) {
            x.v = "-" + std::to_string(top + 1);
            return;
        }
        int64_t const value = _rng.range(0, 3) ? _rng.range(0, 120) :
            static_cast<int64_t>(_rng.next() % (top / 2 + 1));
        x.v = std::to_string(is_signed && _rng.chance(30) ? -value : value);
    }

public:
    Node expression(int depth)
    {
        Node x;
        x.id = ++_id;
        x.p = position();
        int const what = depth <= 0 ? _rng.range(0, 5) : _rng.range(0, 13);
        if(what <= 2) { x.k = "name"; x.n = name(); }
        else if(what <= 4) { number(x); }
        else if(what == 5) { x.k = "str"; x.v = string(); }
        else if(what <= 7 && _o.parts) {
            x.k = what == 6 ? "sub" : "attr";
            x.a.push_back(expression(depth - 1));
            if(what == 6) { x.a.push_back(expression(depth - 1)); }
            else { x.n = name(); }
        }
        else if(what <= 10 || !_o.operators) {
            x.k = "call";
            int count = -1;
            if(_o.calls.empty()) {
                x.n = name();
                if(_o.once && _rng.chance(70)) {
                    x.n = "f" + std::to_string(_rng.range(0, 2));
                    if(!_called.insert(x.n).second) { x.n = "g"; }
                }
            }
            else {
                auto const& call = _rng.pick(_o.calls);
                x.n = call.first;
                count = call.second;
            }
            if(count < 0) { count = _rng.range(0, 3); }
            for(int k = 0; k < count; ++k) {
                x.a.push_back(expression(depth - 1));
            }
        }
        else {
            x.k = "op";
            bool const one = _rng.chance(30);
            x.n = _rng.pick(one ? unary() : binary());
            x.a.push_back(expression(depth - 1));
            if(!one) { x.a.push_back(expression(depth - 1)); }
        }
        return x;
    }

    Node statement(int depth, bool in_function, bool after_return)
    {
        int const what = _rng.range(0, 11);
        Node x;
        if(what <= 1) {
            x = expression(_o.expression_depth);
        }
        else if(what <= 6 || depth <= 0) {
            x.id = ++_id;
            x.k = "assign";
            if(_o.any_target && _rng.chance(25)) {
                x.a.push_back(expression(1));
            }
            else {
                Node t;
                t.id = ++_id;
                t.p = position();
                t.k = "name";
                t.n = name();
                x.a.push_back(t);
            }
            x.a.push_back(expression(_o.expression_depth));
        }
        else if(what <= 8 || (what == 9 && !_o.whiles) ||
                (what >= 10 && (!_o.defs || _functions > 3 ||
                    (_o.plain_tail && after_return)))) {
            x.id = ++_id;
            x.k = "if";
            conditional(x, depth);
        }
        else if(what == 9) {
            x.id = ++_id;
            x.k = "while";
            conditional(x, depth);
        }
        else {
            x.id = ++_id;
            x.k = "def";
            // Possibly one that hides another of the same name.
            x.n = "f" + std::to_string(_functions++);
            std::string const hidden = defined.empty() ? x.n :
                _rng.pick(defined);
            if(_rng.chance(40) && !_blocks.back().count(hidden)) {
                x.n = hidden;
            }
            _blocks.back().insert(x.n);
            defined.push_back(x.n);
            for(int k = _rng.range(0, 2); k > 0; --k) {
                Node t;
                t.id = ++_id;
                t.p = position();
                t.k = "name";
                t.n = name();
                x.a.push_back(t);
            }
            x.s.push_back(++_id);
            x.b.push_back(block(depth - 1, _rng.range(1, 3), true));
        }
        (void)in_function;
        x.q = position();
        return x;
    }

    void conditional(Node& x, int depth)
    {
        x.a.push_back(expression(_o.expression_depth - 1));
        x.s.push_back(++_id);
        x.b.push_back(block(depth - 1, _rng.range(1, 2), false));
        x.s.push_back(++_id);
        x.b.push_back(block(depth - 1, _rng.chance(50) ? _rng.range(1, 2) : 0,
            false));
    }

    Block block(int depth, int size, bool in_function)
    {
        Block result;
        bool after_return = false;
        _blocks.emplace_back();
        for(int k = 0; k < size; ++k) {
            if(in_function && _rng.chance(30)) {
                Node x;
                x.id = ++_id;
                x.k = "ret";
                x.q = position();
                if(_rng.chance(70)) {
                    x.a.push_back(expression(_o.expression_depth - 1));
                }
                result.push_back(x);
                after_return = true;
                continue;
            }
            result.push_back(statement(depth, in_function, after_return));
        }
        _blocks.pop_back();
        return result;
    }
};

// Same contents, different ways to write it.
class Xml
{
public:
    Xml(Rng& rng, bool varied): _rng(rng), _varied(varied) {}

    std::string operator()(Block const& program, std::string const& source)
    {
        _text = _varied && _rng.chance(20) ? "" :
            "<?xml version=\"1.0\"?>\n";
        space();
        _text += "<Fern source=\"" + escaped(source) + "\">";
        statements(program);
        _text += "</Fern>";
        return _text;
    }

private:
    Rng& _rng;
    bool _varied;
    std::string _text;

    void space()
    {
        if(!_varied) { return; }
        if(_rng.chance(12)) { _text += "\n  "; }
        if(_rng.chance(4)) { _text += "<!-- <Name>x</Name> -->"; }
    }

    std::string escaped(std::string const& text)
    {
        std::string result;
        for(char c: text) {
            bool const number = _varied && _rng.chance(10);
            if(number) { result += "&#" + std::to_string(int(c)) + ";"; }
            else if(c == '<') { result += "&lt;"; }
            else if(c == '>') { result += "&gt;"; }
            else if(c == '&') { result += "&amp;"; }
            else if(c == '"') { result += "&quot;"; }
            else { result += c; }
        }
        return result;
    }

    void text(char const* element, std::string const& value)
    {
        space();
        _text += std::string("<") + element + ">";
        if(_varied && _rng.chance(5) &&
                value.find("]]") == std::string::npos) {
            _text += "<![CDATA[" + value + "]]>";
        }
        else { _text += escaped(value); }
        _text += std::string("</") + element + ">";
    }

    void open(std::string const& element)
    {
        space();
        _text += "<" + element + ">";
    }
    void close(std::string const& element)
    {
        space();
        _text += "</" + element + ">";
    }

    std::string at(std::vector<int> const& p)
    {
        std::string const line = "line=\"" + std::to_string(p[0]) + "\"";
        std::string const col = "col=\"" + std::to_string(p[1]) + "\"";
        return _varied && _rng.chance(30) ? " " + col + " " + line :
            " " + line + " " + col;
    }

    void expressions(std::vector<Node> const& all)
    {
        if(all.empty() && _rng.chance(50)) {
            space();
            _text += "<Expressions/>";
            return;
        }
        open("Expressions");
        for(auto const& x: all) { expression(x); }
        close("Expressions");
    }

    void expression(Node const& x)
    {
        space();
        _text += "<Expression" + at(x.p) + ">";
        if(x.k == "name") { text("Name", x.n); }
        else if(x.k == "str") { text("String", x.v); }
        else if(x.k == "num") {
            open("Number");
            std::string const kind = x.n[0] == 'f' ? "Float" :
                x.n[0] == 'i' ? "Integer" : "UnsignedInteger";
            std::string size;
            for(char c: x.n) { if(c >= '0' && c <= '9') { size += c; } }
            open(kind);
            text("Size", size);
            text("Value", x.v);
            close(kind);
            close("Number");
        }
        else if(x.k == "sub") {
            open("Subscript");
            expression(x.a[0]);
            expression(x.a[1]);
            close("Subscript");
        }
        else if(x.k == "attr") {
            open("Attribute");
            expression(x.a[0]);
            text("Name", x.n);
            close("Attribute");
        }
        else {
            std::string const e = x.k == "call" ? "FunctionCall" : "Operator";
            open(e);
            text("Name", x.n);
            expressions(x.a);
            close(e);
        }
        close("Expression");
    }

    void statements(Block const& block)
    {
        if(block.empty() && _rng.chance(50)) {
            space();
            _text += "<Statements/>";
            return;
        }
        open("Statements");
        for(auto const& x: block) {
            space();
            _text += "<Statement" + at(x.q) + ">";
            if(x.k == "assign") {
                open("Assignment");
                expression(x.a[0]);
                expression(x.a[1]);
                close("Assignment");
            }
            else if(x.k == "if" || x.k == "while") {
                std::string const e = x.k == "if" ? "If" : "While";
                open(e);
                expression(x.a[0]);
                statements(x.b[0]);
                statements(x.b[1]);
                close(e);
            }
            else if(x.k == "def") {
                open("FunctionDefinition");
                text("Name", x.n);
                expressions(x.a);
                statements(x.b[0]);
                close("FunctionDefinition");
            }
            else if(x.k == "ret") {
                if(x.a.empty() && _rng.chance(50)) {
                    space();
                    _text += "<Return/>";
                }
                else {
                    open("Return");
                    for(auto const& y: x.a) { expression(y); }
                    close("Return");
                }
            }
            else { expression(x); }
            close("Statement");
        }
        close("Statements");
    }
};

// What the tree is, in text.
template<typename T>
bool number(fl::ExpressionVertex const& x, char const* name, std::string& text)
{
    auto const* n = dynamic_cast<fl::NumberVertex<T> const*>(&x);
    if(!n) { return false; }
    std::ostringstream stream;
    stream << +n->value();
    text = std::string("#") + name + ":" + stream.str();
    return true;
}

inline std::string position(fl::AstVertex const& x)
{
    return "@" + std::to_string(x.line()) + "," + std::to_string(x.col());
}

inline std::string dump(fl::ExpressionVertex const& x);

inline std::string dump(fl::ExpressionVertices const& all)
{
    std::string result;
    for(size_t k = 0; k < all.size(); ++k) {
        result += (k ? "," : "") + dump(*all[k]);
    }
    return "(" + result + ")";
}

inline std::string dump(fl::ExpressionVertex const& x)
{
    std::string t = "?";
    if(auto v = dynamic_cast<fl::NameVertex const*>(&x)) {
        t = "N:" + v->name();
        if(!v->definitions().empty() || !v->uses().empty()) { t += "!"; }
    }
    else if(auto v = dynamic_cast<fl::StringVertex const*>(&x)) {
        t = "S:" + v->value();
    }
    else if(auto v = dynamic_cast<fl::SubscriptVertex const*>(&x)) {
        t = "[](" + dump(*v->expression()) + "," + dump(*v->selection()) + ")";
    }
    else if(auto v = dynamic_cast<fl::AttributeVertex const*>(&x)) {
        t = "." + v->member_name() + "(" + dump(*v->expression()) + ")";
    }
    else if(auto v = dynamic_cast<fl::FunctionCallVertex const*>(&x)) {
        t = "C:" + v->name() + dump(v->expressions());
    }
    else if(auto v = dynamic_cast<fl::OperatorVertex const*>(&x)) {
        t = "O:" + v->name() + ":" + v->symbol() + dump(v->expressions());
    }
    else {
        number<int8_t>(x, "int8", t) || number<int16_t>(x, "int16", t) ||
        number<int32_t>(x, "int32", t) || number<int64_t>(x, "int64", t) ||
        number<uint8_t>(x, "uint8", t) || number<uint16_t>(x, "uint16", t) ||
        number<uint32_t>(x, "uint32", t) || number<uint64_t>(x, "uint64", t) ||
        number<float>(x, "float32", t) || number<double>(x, "float64", t);
    }
    if(auto v = dynamic_cast<fl::OperationVertex const*>(&x)) {
        if(v->operation()) { t += "!"; }
    }
    if(x.has_successor() || !x.expression_types().is_empty()) { t += "!"; }
    return t + position(x);
}

inline std::string dump(fl::ScopeVertex const& scope);

inline std::string dump(fl::StatementVertex const& x)
{
    std::string t = "?";
    if(auto v = dynamic_cast<fl::ExpressionVertex const*>(&x)) {
        return dump(*v);
    }
    if(auto v = dynamic_cast<fl::AssignmentVertex const*>(&x)) {
        t = v->target()->value() == v->expression() ? "=" : "=!";
        t += "(" + dump(*v->target()) + "," + dump(*v->expression()) + ")";
    }
    else if(auto v = dynamic_cast<fl::IfVertex const*>(&x)) {
        t = "if(" + dump(*v->condition()) + ")" + dump(*v->true_scope()) +
            dump(*v->false_scope());
        if(v->sentinel()->has_successor()) { t += "!"; }
    }
    else if(auto v = dynamic_cast<fl::WhileVertex const*>(&x)) {
        t = "while(" + dump(*v->condition()) + ")" + dump(*v->true_scope()) +
            dump(*v->false_scope());
    }
    else if(auto v = dynamic_cast<fl::FunctionDefinitionVertex const*>(&x)) {
        t = "def:" + v->name() + dump(v->arguments()) + dump(*v->scope());
    }
    else if(auto v = dynamic_cast<fl::ReturnVertex const*>(&x)) {
        t = "ret(" + (v->expression() ? dump(*v->expression()) : "") + ")";
    }
    if(x.has_successor()) { t += "!"; }
    return t + position(x);
}

inline std::string dump(fl::ScopeVertex const& scope)
{
    std::string result;
    for(auto const& x: scope.statements()) { result += dump(*x) + ";"; }
    if(scope.has_successor() || scope.sentinel()->has_successor()) {
        result += "!";
    }
    return "{" + result + "}";
}

inline std::string dump(fl::ModuleVertex const& module)
{
    return module.source_name() + dump(*module.scope()) + position(module);
}

// The vertices by id. The tree has the program's structure.
class Vertices
{
public:
    std::map<int, fl::AstVertex*> by_id;
    std::map<fl::AstVertex const*, int> ids;

    Vertices(Block const& program, fl::ModuleVertex& module)
    {
        add(0, module);
        scope(1000, program, *module.scope());
    }

    int id(fl::AstVertex const* x) const
    {
        auto const it = ids.find(x);
        return it == ids.end() ? -9999 : it->second;
    }

    template<typename T>
    T& at(int id) const { return dynamic_cast<T&>(*by_id.at(id)); }

    std::vector<int> names;

private:
    void add(int id, fl::AstVertex& x)
    {
        by_id[id] = &x;
        ids[&x] = id;
    }

    void scope(int id, Block const& block, fl::ScopeVertex& x)
    {
        add(id, x);
        add(-id, *x.sentinel());
        for(size_t k = 0; k < block.size(); ++k) {
            statement(block[k], *x.statements().at(k));
        }
    }

    void expressions(std::vector<Node> const& all,
        fl::ExpressionVertices const& x)
    {
        for(size_t k = 0; k < all.size(); ++k) {
            expression(all[k], *x.at(k));
        }
    }

    void expression(Node const& n, fl::ExpressionVertex& x)
    {
        add(n.id, x);
        if(n.k == "name") { names.push_back(n.id); }
        if(n.k == "sub") {
            auto& v = dynamic_cast<fl::SubscriptVertex&>(x);
            expression(n.a[0], *v.expression());
            expression(n.a[1], *v.selection());
        }
        else if(n.k == "attr") {
            auto& v = dynamic_cast<fl::AttributeVertex&>(x);
            expression(n.a[0], *v.expression());
        }
        else if(n.k == "call" || n.k == "op") {
            auto& v = dynamic_cast<fl::OperationVertex&>(x);
            expressions(n.a, v.expressions());
        }
    }

    void statement(Node const& n, fl::StatementVertex& x)
    {
        add(n.id, x);
        if(n.k == "assign") {
            auto& v = dynamic_cast<fl::AssignmentVertex&>(x);
            expression(n.a[0], *v.target());
            expression(n.a[1], *v.expression());
        }
        else if(n.k == "if") {
            auto& v = dynamic_cast<fl::IfVertex&>(x);
            add(-n.id, *v.sentinel());
            expression(n.a[0], *v.condition());
            scope(n.s[0], n.b[0], *v.true_scope());
            scope(n.s[1], n.b[1], *v.false_scope());
        }
        else if(n.k == "while") {
            auto& v = dynamic_cast<fl::WhileVertex&>(x);
            expression(n.a[0], *v.condition());
            scope(n.s[0], n.b[0], *v.true_scope());
            scope(n.s[1], n.b[1], *v.false_scope());
        }
        else if(n.k == "def") {
            auto& v = dynamic_cast<fl::FunctionDefinitionVertex&>(x);
            expressions(n.a, v.arguments());
            scope(n.s[0], n.b[0], *v.scope());
        }
        else if(n.k == "ret") {
            auto& v = dynamic_cast<fl::ReturnVertex&>(x);
            if(!n.a.empty()) { expression(n.a[0], *v.expression()); }
        }
        else { expression(n, dynamic_cast<fl::ExpressionVertex&>(x)); }
    }
};

} // namespace prog
