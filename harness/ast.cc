// Programs through the parser of XML and the visitors of the syntax tree.
#include <cassert>
#include <sstream>
#include <string>
#include <vector>
#include "fern/core/exception.h"
#include "fern/core/type_traits.h"
#include "fern/core/value_type_traits.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/visitor/annotate_visitor.h"
#include "fern/language/ast/visitor/identify_visitor.h"
#include "fern/language/ast/visitor/io_visitor.h"
#include "fern/language/ast/visitor/module_visitor.h"
#include "fern/language/ast/visitor/thread_visitor.h"
#include "fern/language/ast/visitor/validate_visitor.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "program.h"

namespace {

using namespace fern;
using namespace prog;

std::string source_name(Rng& rng)
{
    return rng.pick<std::string>({"", "a.ran", "<string>", "a b", "x&y"});
}

// -----------------------------------------------------------------------------
// Parsing.

// An XML parser can be used again, also after an error.
void parse(Rng& rng)
{
    Options o;
    o.defs = o.whiles = o.parts = o.any_target = true;
    Block const program = Generator(rng, o).program();
    std::string const source = source_name(rng);
    Json j;
    j.s("op", "parse").raw("program", json(program)).s("source", source);
    ev::begin(j);
    fl::XmlParser parser;
    std::string const xml = Xml(rng, true)(program, source);
    auto const tree = parser.parse_string(xml);
    std::string const text = dump(*tree);
    if(rng.chance(20)) {
        try { parser.parse_string(xml.substr(0, xml.size() / 2)); }
        catch(detail::ParseError const&) {}
    }
    auto const again = parser.parse_string(Xml(rng, false)(program, source));
    j.s("tree", text).s("again", dump(*again)).b("kept", dump(*tree) == text)
        .b("separate", tree != again && tree->scope() != again->scope());
    ev::end(j);
}

size_t occurrences(std::string const& text, std::string const& part)
{
    size_t n = 0;
    for(size_t k = text.find(part); k != std::string::npos;
        k = text.find(part, k + 1)) { ++n; }
    return n;
}

// The given occurrence of a part of the text, replaced.
std::string changed(Rng& rng, std::string const& text, std::string const& part,
    std::string const& by)
{
    size_t const n = occurrences(text, part);
    if(n == 0) { return ""; }
    size_t pos = text.find(part);
    for(size_t k = rng.range(0, n - 1); k > 0; --k) {
        pos = text.find(part, pos + 1);
    }
    return text.substr(0, pos) + by + text.substr(pos + part.size());
}

// What isn't a document of the schema isn't parsed.
void malformed(Rng& rng)
{
    Options o;
    o.whiles = o.parts = true;
    o.statements = 4;
    Block const program = Generator(rng, o).program();
    std::string const good = Xml(rng, false)(program, "m");
    static std::vector<std::vector<std::string>> const changes = {
        {"cut", "", ""}, {"cut", "", ""},
        {"attribute", " line=\"", " lin=\""},
        {"attribute", " col=\"", " column=\""},
        {"attribute", " source=\"m\"", ""},
        {"attribute", " line=\"", " line=\"1\" x=\""},
        {"element", "<Name>", "<Name></Name><Name>"},
        {"element", "<Statements>", "<Statements><Name>a</Name>"},
        {"element", "<Value>", "<Value>1</Value><Value>"},
        {"element", "<Expressions>", "<Expressions><Statement/>"},
        {"element", "<Assignment>", "<Assignment><Number/>"},
        {"element", "</Assignment>", "<X/></Assignment>"},
        {"element", "</Number>", "<Integer/></Number>"},
        {"missing", "<Size>32</Size>", ""},
        {"missing", "<Size>64</Size>", ""},
        {"missing", "<Statements/>", ""},
        {"missing", "<Expressions/>", ""},
        {"value", "<Size>", "<Size>-"},
        {"value", "<Value>", "<Value>x"},
        {"value", "</Value>", "y</Value>"},
        {"value", " line=\"", " line=\"-1"},
        {"value", " col=\"", " col=\"x"},
        {"tag", "</Statement>", "</Statemen>"},
        {"tag", "<Name>", "<Name"},
        {"tag", "</Expression>", ""},
        {"tag", "</Fern>", "</Fern><Fern/>"},
        {"root", "<Fern ", "<Ferm "},
        {"root", "<Fern ", "<Fern xmlns=\"http://www.geoneric.eu/fern\" "}
    };
    auto const& c = rng.pick(changes);
    std::string bad = c[0] == "cut" ?
        good.substr(0, rng.range(0, good.size() - 1)) :
        changed(rng, good, c[1], c[2]);
    if(bad.empty() && c[0] != "cut") {
        bad = good.substr(0, rng.range(0, good.size() - 1));
    }
    Json j;
    j.s("op", "malformed").s("kind", c[0]).s("by", c[2]).s("xml", bad);
    ev::begin(j);
    std::string outcome = "parsed";
    bool sourced = false, placed = false, messaged = false;
    int64_t const lines = occurrences(bad, "\n") + 1;
    fl::XmlParser const parser;
    try { parser.parse_string(bad); }
    catch(detail::ParseError const& e) {
        outcome = "ParseError";
        auto const* source = boost::get_error_info<
            detail::ExceptionSourceName>(e);
        auto const* line = boost::get_error_info<detail::ExceptionLineNr>(e);
        auto const* col = boost::get_error_info<detail::ExceptionColNr>(e);
        auto const* message = boost::get_error_info<
            detail::ExceptionMessage>(e);
        std::ostringstream s;
        if(source) { s << *source; }
        sourced = source && s.str() == "<string>";
        placed = line && col && *line >= 0 && *line <= lines && *col >= 0;
        messaged = message && !message->empty();
    }
    catch(std::exception const& e) { outcome = e.what(); }
    j.s("outcome", outcome).b("sourced", sourced).b("placed", placed)
        .b("messaged", messaged);
    ev::end(j);
}

// The text of a module.
void text(Rng& rng)
{
    Options o;
    o.whiles = o.parts = o.any_target = true;
    o.depth = 3;
    Block const program = Generator(rng, o).program();
    int const tab = rng.pick<int>({4, 4, 0, 1, 2, 8});
    Json j;
    j.s("op", "text").raw("program", json(program)).i("tab", tab);
    ev::begin(j);
    auto const tree = fl::XmlParser().parse_string(
        Xml(rng, true)(program, "m"));
    fl::ModuleVisitor by_default;
    fl::ModuleVisitor visitor(tab);
    if(rng.chance(30)) {
        Options small;
        small.statements = 2;
        auto const other = fl::XmlParser().parse_string(
            Xml(rng, true)(Generator(rng, small).program(), "m"));
        other->Accept(visitor);
    }
    tree->Accept(visitor);
    std::string const found = visitor.module();
    tree->Accept(visitor);
    tree->Accept(by_default);
    j.s("text", found).s("again", visitor.module())
        .s("by_default", by_default.module())
        .s("tree", dump(*tree));
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Names.

void names(Rng& rng)
{
    Options o;
    o.whiles = o.parts = true;
    o.names = rng.range(2, 6);
    o.statements = 8;
    o.expression_depth = 2;
    Block const program = Generator(rng, o).program();
    Json j;
    j.s("op", "names").raw("program", json(program));
    ev::begin(j);
    auto const tree = fl::XmlParser().parse_string(
        Xml(rng, true)(program, "m"));
    Vertices const vertices(program, *tree);
    fl::IdentifyVisitor identify;
    tree->Accept(identify);
    std::vector<std::string> found;
    for(int id: vertices.names) {
        auto const& name = vertices.at<fl::NameVertex>(id);
        std::vector<int> definitions, uses;
        for(auto const* x: name.definitions()) {
            definitions.push_back(vertices.id(x));
        }
        for(auto const* x: name.uses()) { uses.push_back(vertices.id(x)); }
        Json f;
        f.i("id", id).is("definitions", definitions).is("uses", uses);
        found.push_back(f.text + "}");
    }
    fl::IOVisitor io;
    if(rng.chance(30)) {
        auto const other = fl::XmlParser().parse_string(
            Xml(rng, true)(Generator(rng, o).program(), "m"));
        other->Accept(io);
    }
    tree->Accept(io);
    std::vector<std::string> inputs;
    for(auto const& name: io.inputs()) { inputs.push_back("\"" + name + "\""); }
    std::vector<int> outputs;
    for(auto const* x: io.outputs()) { outputs.push_back(vertices.id(x)); }
    j.raws("found", found).raws("inputs", inputs).is("outputs", outputs)
        .b("left", identify.symbol_table().empty());
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Control flow.

void threads(Rng& rng)
{
    Options o;
    o.defs = rng.chance(70);
    o.parts = o.any_target = o.once = o.plain_tail = true;
    o.depth = 3;
    o.expression_depth = 2;
    Block const program = Generator(rng, o).program();
    Json j;
    j.s("op", "threads").raw("program", json(program));
    ev::begin(j);
    auto const tree = fl::XmlParser().parse_string(
        Xml(rng, true)(program, "m"));
    Vertices const vertices(program, *tree);
    fl::ThreadVisitor visitor;
    if(rng.chance(30)) {
        auto const other = fl::XmlParser().parse_string(
            Xml(rng, true)(program, "m"));
        other->Accept(visitor);
    }
    tree->Accept(visitor);
    std::vector<std::string> found;
    for(auto const& pair: vertices.by_id) {
        std::vector<int> to;
        for(auto const* x: pair.second->successors()) {
            to.push_back(vertices.id(x));
        }
        Json f;
        f.i("id", pair.first).is("to", to);
        found.push_back(f.text + "}");
    }
    j.raws("found", found);
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Types.

struct Type
{
    ExpressionType type;
    std::string text;
};

std::vector<std::pair<DataTypes, std::string>> const& data_types()
{
    static std::vector<std::pair<DataTypes, std::string>> const result = {
        {DataTypes::CONSTANT, "Constant"},
        {DataTypes::STATIC_FIELD, "StaticField"}};
    return result;
}

std::vector<std::pair<ValueTypes, std::string>> const& value_types()
{
    static std::vector<std::pair<ValueTypes, std::string>> const result = {
        {ValueTypes::UINT8, "Uint8"}, {ValueTypes::INT8, "Int8"},
        {ValueTypes::UINT16, "Uint16"}, {ValueTypes::INT16, "Int16"},
        {ValueTypes::UINT32, "Uint32"}, {ValueTypes::INT32, "Int32"},
        {ValueTypes::UINT64, "Uint64"}, {ValueTypes::INT64, "Int64"},
        {ValueTypes::FLOAT32, "Float32"}, {ValueTypes::FLOAT64, "Float64"},
        {ValueTypes::STRING, "String"}};
    return result;
}

template<typename Set>
std::string some(Rng& rng, std::vector<std::pair<Set, std::string>> const& all,
    int percent, Set& set)
{
    std::string names;
    bool first = true;
    int const sure = rng.range(0, all.size() - 1);
    for(int k = 0; k < static_cast<int>(all.size()); ++k) {
        if(k != sure && !rng.chance(percent)) { continue; }
        if(first) { set = all[k].first; } else { set |= all[k].first; }
        names += std::string(first ? "" : ",") + "\"" + all[k].second + "\"";
        first = false;
    }
    return "[" + names + "]";
}

Type type(Rng& rng)
{
    DataTypes d = DataTypes::CONSTANT;
    ValueTypes v = ValueTypes::INT32;
    std::string const data = some(rng, data_types(), rng.pick<int>({20, 70}),
        d);
    std::string const value = some(rng, value_types(),
        rng.pick<int>({0, 30, 85, 95}), v);
    return {ExpressionType(d, v), "{\"d\":" + data + ",\"v\":" + value + "}"};
}

// The type of the result is that of an argument, or a given one.
struct Typed: fl::Operation
{
    Typed(std::string const& name, std::vector<fl::Parameter> const& parameters,
        int as, ExpressionType const& otherwise)
        : fl::Operation(name, "an operation", parameters, {fl::Result("r",
            "a result", otherwise)}), as(as), otherwise(otherwise) {}

    ExpressionType expression_type(size_t index,
        std::vector<ExpressionType> const& types) const override
    {
        assert(index == 0);
        assert(types.size() == arity());
        return as == 0 ? otherwise : types[as - 1];
    }

    std::vector<std::shared_ptr<fl::Argument>> execute(
        std::vector<std::shared_ptr<fl::Argument>> const&) const override
    {
        return {};
    }

    int as;
    ExpressionType otherwise;
};

std::string shown(fl::ExpressionTypes const& types)
{
    std::ostringstream s;
    s << types;
    return s.str();
}

std::string shown(ExpressionType const& type)
{
    std::ostringstream s;
    s << type;
    return s.str();
}

void types(Rng& rng)
{
    // The operations. Most programs are good ones.
    bool const loose = rng.chance(50);
    std::vector<fl::OperationPtr> operations;
    std::vector<std::string> described;
    Options o;
    o.operators = false;
    o.whiles = rng.chance(30);
    o.names = rng.range(1, 4);
    o.statements = 4;
    static std::vector<std::string> const all = {"f", "g", "h", "k", "add",
        "Sub", "UnarySub"};
    for(auto const& name: all) {
        bool const op = name.size() > 1;
        int const arity = op ? (name == "UnarySub" ? 1 : 2) : rng.range(0, 3);
        std::vector<fl::Parameter> parameters;
        std::vector<std::string> described_parameters;
        for(int k = 0; k < arity; ++k) {
            Type t = type(rng);
            if(loose || rng.chance(60)) {
                t.type = ExpressionType(DataTypes::ALL, ValueTypes::ALL);
                t.text = "{\"d\":[\"Constant\",\"StaticField\"],\"v\":["
                    "\"Bool\",\"Char\"";
                for(auto const& v: value_types()) {
                    t.text += ",\"" + v.second + "\"";
                }
                t.text += "]}";
            }
            parameters.emplace_back("p", "a parameter", t.type.data_type(),
                t.type.value_type());
            described_parameters.push_back(t.text);
        }
        int const as = arity > 0 && rng.chance(75) ? rng.range(1, arity) : 0;
        Type const t = type(rng);
        if(rng.chance(90)) {
            operations.push_back(std::make_shared<Typed>(name, parameters, as,
                t.type));
            Json d;
            d.s("n", name).raws("parameters", described_parameters)
                .i("as", as).raw("otherwise", t.text);
            described.push_back(d.text + "}");
        }
        if(!op) {
            o.calls.emplace_back(name, rng.chance(93) ? arity :
                rng.range(0, 3));
        }
    }
    Generator generator(rng, o);
    Block program;
    // Names that are known.
    static std::vector<std::string> const known = {"a", "b", "c", "ab"};
    SymbolTable<ExpressionType> globals;
    std::vector<std::string> described_globals;
    globals.push_scope();
    for(auto const& name: known) {
        if(!rng.chance(80)) { continue; }
        Type const t = type(rng);
        globals.add_value(name, t.type);
        described_globals.push_back("{\"n\":\"" + name + "\",\"t\":" + t.text +
            "}");
    }
    if(described_globals.empty() && rng.chance(50)) { globals.pop_scope(); }
    program = generator.program();
    // Some of the calls are operators.
    std::function<void(Node&)> mix = [&](Node& x) {
        for(auto& y: x.a) { mix(y); }
        for(auto& block: x.b) { for(auto& y: block) { mix(y); } }
        if(x.k == "call" && (x.a.size() == 1 || x.a.size() == 2) &&
                rng.chance(30)) {
            x.k = "op";
            x.n = x.a.size() == 1 ? (rng.chance(90) ? "UnarySub" : "Not") :
                rng.pick<std::string>({"add", "add", "Sub", "Mult"});
            if(x.n == "Mult" && rng.chance(80)) { x.n = "add"; }
        }
    };
    for(auto& x: program) { mix(x); }
    Json j;
    j.s("op", "types").raw("program", json(program)).raws("operations",
        described).raws("globals", described_globals);
    ev::begin(j);
    auto const tree = fl::XmlParser().parse_string(
        Xml(rng, true)(program, "m"));
    Vertices const vertices(program, *tree);
    fl::AnnotateVisitor annotate(std::make_shared<fl::Operations>(operations));
    annotate.add_global_symbols(globals);
    tree->Accept(annotate);
    std::vector<std::string> found, stack;
    for(auto const& pair: vertices.by_id) {
        auto const* x = dynamic_cast<fl::ExpressionVertex const*>(pair.second);
        if(!x) { continue; }
        auto const* y = dynamic_cast<fl::OperationVertex const*>(pair.second);
        Json f;
        f.i("id", pair.first).s("t", shown(x->expression_types()))
            .b("has", y && y->operation());
        found.push_back(f.text + "}");
    }
    for(auto rest = annotate.stack(); !rest.empty(); rest.pop()) {
        stack.push_back("\"" + shown(rest.top()) + "\"");
    }
    fl::ValidateVisitor validate;
    Json e;
    std::string kind = "", name = "", required = "", provided = "";
    int64_t line = -1, col = -1, r = -1, p = -1, argument = -1;
    auto const where = [&](boost::exception const& x) {
        line = *boost::get_error_info<detail::ExceptionLineNr>(x);
        col = *boost::get_error_info<detail::ExceptionColNr>(x);
    };
    try { tree->Accept(validate); }
    catch(detail::UndefinedIdentifier const& x) {
        kind = "UndefinedIdentifier";
        name = *boost::get_error_info<detail::ExceptionIdentifier>(x);
        where(x);
    }
    catch(detail::UndefinedOperation const& x) {
        kind = "UndefinedOperation";
        name = *boost::get_error_info<detail::ExceptionFunction>(x);
        where(x);
    }
    catch(detail::WrongNumberOfArguments const& x) {
        kind = "WrongNumberOfArguments";
        name = *boost::get_error_info<detail::ExceptionFunction>(x);
        r = *boost::get_error_info<detail::ExceptionRequiredNrArguments>(x);
        p = *boost::get_error_info<detail::ExceptionProvidedNrArguments>(x);
        where(x);
    }
    catch(detail::WrongTypeOfArgument const& x) {
        kind = "WrongTypeOfArgument";
        name = *boost::get_error_info<detail::ExceptionFunction>(x);
        argument = *boost::get_error_info<detail::ExceptionArgumentId>(x);
        required = *boost::get_error_info<
            detail::ExceptionRequiredArgumentTypes>(x);
        provided = *boost::get_error_info<
            detail::ExceptionProvidedArgumentTypes>(x);
        where(x);
    }
    e.s("kind", kind).s("n", name).i("line", line).i("col", col)
        .i("required", r).i("provided", p).i("argument", argument)
        .s("required_types", required).s("provided_types", provided);
    bool left = annotate.stack().size() == stack.size();
    annotate.clear_stack();
    left = left && annotate.stack().empty();
    j.raws("found", found).raws("stack", stack).raw("error", e.text + "}")
        .b("left", left);
    ev::end(j);
}

} // namespace

int main(int argc, char** argv)
{
#if GROUP == 0
    ev::kinds() = {parse, malformed, text};
#elif GROUP == 1
    ev::kinds() = {names};
#elif GROUP == 2
    ev::kinds() = {threads};
#else
    ev::kinds() = {types};
#endif
    return ev::main(argc, argv);
}
