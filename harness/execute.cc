// Programs that are executed, one after the other, in the same session.
// The interpreter's parser of source code needs an old Python: here, it is
// given the document that the parser would make.
#include <cassert>
#include <cerrno>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "fern/core/exception.h"
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/core/type_traits.h"
#include "fern/core/validate_error.h"
#include "fern/core/value_type_traits.h"
#include "fern/language/feature/core/constant_attribute.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/visitor/identify_visitor.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/interpreter/data_sources.h"
#include "fern/language/interpreter/data_syncs.h"
#include "fern/language/interpreter/execute_visitor.h"
#include "fern/language/interpreter/interpreter.h"
#include "fern/language/io/drivers.h"
#include "program.h"

using namespace fern;
using namespace prog;

namespace {

std::vector<std::string> happened;
std::shared_ptr<fl::Operations> known_operations;

// -----------------------------------------------------------------------------
// Values.

std::string exact(double value)
{
    char text[64];
    std::snprintf(text, sizeof(text), "%.17g", value);
    return text;
}

template<typename T>
bool shown_as(fl::Attribute const& attribute, char const* name,
    std::string& text)
{
    auto const* x = dynamic_cast<fl::ConstantAttribute<T> const*>(&attribute);
    if(!x) { return false; }
    text = name;
    T const value = x->values().value();
    if constexpr(std::is_same<T, std::string>::value) { text += value; }
    else if constexpr(std::is_floating_point<T>::value) {
        text += exact(value);
    }
    else { text += std::to_string(value); }
    return true;
}

std::string shown(fl::Attribute const& x)
{
    std::string text = "?";
    shown_as<std::string>(x, "string:", text) ||
        shown_as<int8_t>(x, "int8:", text) ||
        shown_as<int16_t>(x, "int16:", text) ||
        shown_as<int32_t>(x, "int32:", text) ||
        shown_as<int64_t>(x, "int64:", text) ||
        shown_as<uint8_t>(x, "uint8:", text) ||
        shown_as<uint16_t>(x, "uint16:", text) ||
        shown_as<uint32_t>(x, "uint32:", text) ||
        shown_as<uint64_t>(x, "uint64:", text) ||
        shown_as<float>(x, "float32:", text) ||
        shown_as<double>(x, "float64:", text);
    return text;
}

std::string shown(fl::Argument const& argument)
{
    if(argument.argument_type() != fl::ArgumentType::AT_ATTRIBUTE) {
        return "?";
    }
    return shown(*dynamic_cast<fl::AttributeArgument const&>(
        argument).attribute());
}

// -----------------------------------------------------------------------------
// Types.

struct Type
{
    ExpressionType type;
    std::string text;
};

Type type_of(std::vector<std::pair<ValueTypes, std::string>> const& all)
{
    ValueTypes v = all[0].first;
    std::vector<std::string> names;
    for(auto const& x: all) { v |= x.first; names.push_back(x.second); }
    return {ExpressionType(DataTypes::CONSTANT, v), "{\"d\":[\"Constant\"],"
        "\"v\":" + ev::str_list(names) + "}"};
}

Type const& String()
{
    static Type const result = type_of({{ValueTypes::STRING, "String"}});
    return result;
}

Type const& Int32()
{
    static Type const result = type_of({{ValueTypes::INT32, "Int32"}});
    return result;
}

Type const& Numbers()
{
    static Type const result = type_of({{ValueTypes::INT8, "Int8"},
    {ValueTypes::INT16, "Int16"}, {ValueTypes::INT32, "Int32"},
    {ValueTypes::INT64, "Int64"}, {ValueTypes::UINT8, "Uint8"},
    {ValueTypes::UINT16, "Uint16"}, {ValueTypes::UINT32, "Uint32"},
    {ValueTypes::UINT64, "Uint64"}, {ValueTypes::FLOAT32, "Float32"},
    {ValueTypes::FLOAT64, "Float64"}});
    return result;
}

Type const& Any()
{
    static Type const result = type_of({{ValueTypes::STRING, "String"},
    {ValueTypes::INT8, "Int8"},
    {ValueTypes::INT16, "Int16"}, {ValueTypes::INT32, "Int32"},
    {ValueTypes::INT64, "Int64"}, {ValueTypes::UINT8, "Uint8"},
    {ValueTypes::UINT16, "Uint16"}, {ValueTypes::UINT32, "Uint32"},
    {ValueTypes::UINT64, "Uint64"}, {ValueTypes::FLOAT32, "Float32"},
    {ValueTypes::FLOAT64, "Float64"}});
    return result;
}


// -----------------------------------------------------------------------------
// Operations: the result is one of the arguments, or a text that says what was
// done.

struct Term: fl::Operation
{
    Term(std::string const& name, std::vector<fl::Parameter> const& parameters,
        int as, bool fails)
        : fl::Operation(name, "an operation", parameters, {fl::Result("r",
            "a result", String().type)}), as(as), fails(fails) {}

    ExpressionType expression_type(size_t,
        std::vector<ExpressionType> const& types) const override
    {
        return as == 0 ? String().type : types[as - 1];
    }

    std::vector<std::shared_ptr<fl::Argument>> execute(
        std::vector<std::shared_ptr<fl::Argument>> const& arguments) const
        override
    {
        std::string text = name() + "(";
        for(size_t k = 0; k < arguments.size(); ++k) {
            text += (k == 0 ? "" : ",") + shown(*arguments[k]);
        }
        text += ")";
        happened.push_back("call " + text);
        if(fails) { throw std::runtime_error("failed"); }
        if(as != 0) { return {arguments[as - 1]}; }
        return {std::make_shared<fl::AttributeArgument>(
            std::make_shared<fl::ConstantAttribute<std::string>>(text))};
    }

    int as;
    bool fails;
};

// -----------------------------------------------------------------------------
// Where values come from, and where they are written to.

struct Data: fl::Dataset
{
    Data(): fl::Dataset("data", fl::OpenMode::OVERWRITE) {}

    size_t nr_features() const override { return 0; }
    std::vector<std::string> feature_names() const override { return {}; }
    bool contains_feature(Path const&) const override { return false; }
    bool contains_attribute(Path const&) const override { return true; }
    std::shared_ptr<fl::Feature> open_feature(Path const&) const override
    {
        return {};
    }
    std::shared_ptr<fl::Attribute> open_attribute(Path const&) const override
    {
        return {};
    }
    std::shared_ptr<fl::Feature> read_feature(Path const&) const override
    {
        return {};
    }

    // What is in the dataset: the name of the attribute tells.
    ExpressionType expression_type(Path const& path) const override
    {
        return is_number(path) ? Int32().type : String().type;
    }

    std::shared_ptr<fl::Attribute> read_attribute(Path const& path) const
        override
    {
        std::string const name = path.generic_string();
        happened.push_back("read " + name.substr(1, name.rfind('.') - 1));
        std::string const rest = name.substr(name.rfind('.') + 2);
        if(is_number(path)) {
            return std::make_shared<fl::ConstantAttribute<int32_t>>(
                std::stoi(rest));
        }
        return std::make_shared<fl::ConstantAttribute<std::string>>(rest);
    }

    void write_attribute(fl::Attribute const& attribute, Path const& path)
        override
    {
        happened.push_back("write " + path.generic_string().substr(1) + "=" +
            shown(attribute));
    }

    static bool is_number(Path const& path)
    {
        std::string const name = path.generic_string();
        return name[name.rfind('.') + 1] == 'n';
    }
};

template<typename T>
struct Source: fl::DataSource
{
    Source(std::string const& name, T const& value, ExpressionType const& type)
        : name(name), value(value), type(type) {}

    ExpressionType const& expression_type() const override { return type; }

    std::shared_ptr<fl::Argument> read() const override
    {
        happened.push_back("read " + name);
        return std::make_shared<fl::AttributeArgument>(
            std::make_shared<fl::ConstantAttribute<T>>(value));
    }

    std::string name;
    T value;
    ExpressionType type;
};

template<typename T>
struct Constant: fl::ConstantSource<T>
{
    Constant(std::string const& name, T const& value)
        : fl::ConstantSource<T>(value), name(name) {}

    std::shared_ptr<fl::Argument> read() const override
    {
        happened.push_back("read " + name);
        return fl::ConstantSource<T>::read();
    }

    std::string name;
};

struct Sync: fl::DataSync
{
    explicit Sync(std::string const& name): name(name) {}

    void write(fl::Argument const& argument) override
    {
        happened.push_back("write " + name + "=" + shown(argument));
    }

    std::string name;
};

using Sources = SymbolTable<std::shared_ptr<fl::DataSource>>;
using Syncs = SymbolTable<std::shared_ptr<fl::DataSync>>;

int next_value = 0;
std::string document;       // What is in any file.

std::string add_source(Rng& rng, Sources& sources, std::string const& name)
{
    int const value = ++next_value;
    bool const number = rng.chance(40);
    std::string const text = "s" + std::to_string(value);
    std::shared_ptr<fl::DataSource> source;
    if(rng.chance(30)) {
        source = std::make_shared<fl::DatasetSource>(DataName("data:" + name +
            "." + (number ? "n" + std::to_string(value) : "t" + text)));
    }
    else if(rng.chance(50)) {
        if(number) {
            source = std::make_shared<Constant<int32_t>>(name, value);
        }
        else {
            source = std::make_shared<Constant<std::string>>(name, text);
        }
    }
    else if(number) {
        source = std::make_shared<Source<int32_t>>(name, value, Int32().type);
    }
    else {
        source = std::make_shared<Source<std::string>>(name, text,
            String().type);
    }
    sources.add_value(name, source);
    Json j;
    j.s("n", name).raw("t", number ? Int32().text : String().text).s("v",
        number ? "int32:" + std::to_string(value) : "string:" + text);
    return j.text + "}";
}

std::string stack_of(std::stack<std::shared_ptr<fl::Argument>> rest)
{
    std::vector<std::string> values;
    for(; !rest.empty(); rest.pop()) {
        values.insert(values.begin(), shown(*rest.top()));
    }
    return ev::str_list(values);
}

std::vector<std::string> const Names = {"a", "b", "c", "ab"};

Options options(Rng& rng)
{
    Options o;
    o.depth = 0;
    o.names = rng.range(1, 4);
    o.statements = 5;
    o.operators = false;
    return o;
}

// The operations that are known, as JSON.
std::vector<std::string> make_operations(Rng& rng, Options& o, int percent,
    bool failing)
{
    std::vector<fl::OperationPtr> operations;
    std::vector<std::string> described;
    static std::vector<std::string> const all = {"f", "g", "h", "k", "add",
        "Sub", "UnarySub"};
    for(auto const& name: all) {
        bool const op = name.size() > 1;
        int const arity = op ? (name == "UnarySub" ? 1 : 2) : rng.range(0, 3);
        std::vector<fl::Parameter> parameters;
        std::vector<std::string> types;
        for(int k = 0; k < arity; ++k) {
            Type const& t = rng.chance(percent) ? Any() : rng.chance(50) ?
                Numbers() : String();
            parameters.emplace_back("p", "a parameter", t.type.data_type(),
                t.type.value_type());
            types.push_back(t.text);
        }
        int const as = arity > 0 && rng.chance(40) ? rng.range(1, arity) : 0;
        bool const fails = failing && (name == "f" || name == "Sub");
        bool const known = rng.chance(percent == 100 ? 100 : 92);
        if(known) {
            operations.push_back(std::make_shared<Term>(name, parameters, as,
                fails));
            Json d;
            d.s("n", name).b("fails", fails).raws("parameters", types).i("as", as)
                .raw("otherwise", String().text);
            described.push_back(d.text + "}");
        }
        if(!op) {
            o.calls.emplace_back(name, rng.chance(percent == 100 ? 100 : 95) ?
                arity : rng.range(0, 3));
        }
    }
    known_operations = std::make_shared<fl::Operations>(operations);
    return described;
}

void mix(Rng& rng, Node& x)
{
    for(auto& y: x.a) { mix(rng, y); }
    if(x.k == "call" && (x.a.size() == 1 || x.a.size() == 2) &&
            rng.chance(30)) {
        x.k = "op";
        x.n = x.a.size() == 1 ? "UnarySub" : rng.pick<std::string>({"add",
            "Sub"});
    }
}

void used(Node const& x, std::vector<std::string>& names)
{
    if(x.k == "name") { names.push_back(x.n); }
    for(size_t k = x.k == "assign" ? 1 : 0; k < x.a.size(); ++k) {
        used(x.a[k], names);
    }
}

// A session: a number of programs.
void session(Rng& rng, bool interpret)
{
    next_value = 0;
    happened.clear();
    Options o = options(rng);
    auto const operations = make_operations(rng, o, interpret ?
        rng.pick<int>({100, 85}) : 100, !interpret && rng.chance(15));
    Generator generator(rng, o);
    Json j;
    j.s("op", interpret ? "interpret" : "execute").raws("operations",
        operations);
    int const nr_programs = rng.range(1, 5);
    std::unique_ptr<fl::Interpreter> interpreter;
    std::unique_ptr<fl::ExecuteVisitor> visitor;
    std::vector<std::string> steps;
    std::set<std::string> variables;
    for(int k = 0; k < nr_programs; ++k) {
        Block program = generator.program();
        for(auto& x: program) { mix(rng, x); }
        Json step;
        step.raw("program", json(program));
        Sources sources;
        Syncs syncs;
        std::vector<std::string> described_sources, sync_names;
        std::set<std::string> with;
        // The contract of the visitor: names have a value or a source.
        int const percent = rng.pick<int>({0, 0, 20, 60});
        for(auto const& name: Names) {
            if(rng.chance(percent)) { with.insert(name); }
        }
        std::set<std::string> now = variables;
        for(auto const& name: with) { now.erase(name); }
        bool const complete = !interpret || rng.chance(75);
        for(auto const& x: program) {
            std::vector<std::string> names;
            used(x, names);
            for(auto const& name: names) {
                if(!now.count(name) && complete) { with.insert(name); }
                now.insert(name);
            }
            if(x.k == "assign") { now.insert(x.a[0].n); }
        }
        if(!with.empty() || rng.chance(50)) { sources.push_scope(); }
        for(auto const& name: with) {
            described_sources.push_back(add_source(rng, sources, name));
        }
        bool const shared = rng.chance(50);
        auto const data = std::make_shared<Data>();
        int const percent_syncs = rng.pick<int>({0, 30, 70});
        for(auto const& name: Names) {
            if(!rng.chance(percent_syncs)) { continue; }
            if(sync_names.empty()) { syncs.push_scope(); }
            if(shared) {
                syncs.add_value(name, std::make_shared<fl::DatasetSync>(data,
                    Path("/" + name)));
            }
            else if(rng.chance(30)) {
                syncs.add_value(name, std::make_shared<fl::DatasetSync>(
                    DataName("data:" + name)));
            }
            else { syncs.add_value(name, std::make_shared<Sync>(name)); }
            sync_names.push_back(name);
        }
        bool const clear = rng.chance(30);
        bool const check = interpret && rng.chance(15);
        step.raws("sources", described_sources).raw("syncs",
            ev::str_list(sync_names)).b("clear", clear).b("check", check);
        // For when it crashes.
        {
            Json head = j;
            std::vector<std::string> all = steps;
            all.push_back(step.text + "}");
            head.raws("steps", all);
            ev::begin(head);
        }
        happened.clear();
        std::string outcome = "ok";
        std::vector<std::string> values;
        bool accepted = true;
        std::string const xml = Xml(rng, true)(program, "m");
        if(interpret) {
            if(!interpreter) {
                interpreter = std::make_unique<fl::Interpreter>();
            }
            if(clear) { interpreter->clear_stack(); }
            try {
                auto const tree = interpreter->parse_string(xml);
                if(rng.chance(10)) {
                    // Doesn't matter to the session.
                    interpreter->parse_string(xml);
                }
                if(check) {
                    if(described_sources.empty()) {
                        interpreter->validate(tree);
                    }
                    else { interpreter->validate(tree, sources); }
                }
                else if(described_sources.empty() && sync_names.empty()) {
                    interpreter->execute(tree);
                }
                else { interpreter->execute(tree, sources, syncs); }
            }
            catch(fern::Exception const& x) {
                outcome = x.message();
                accepted = false;
            }
            step.raw("stack", stack_of(interpreter->stack()));
        }
        else {
            if(!visitor) {
                visitor = std::make_unique<fl::ExecuteVisitor>(
                    known_operations);
            }
            if(clear) { visitor->clear_stack(); }
            auto const tree = fl::XmlParser().parse_string(xml);
            fl::IdentifyVisitor identify;
            tree->Accept(identify);
            visitor->set_data_source_symbols(sources);
            visitor->set_data_sync_symbols(syncs);
            try { tree->Accept(*visitor); }
            catch(std::runtime_error const& x) {
                outcome = x.what();
                visitor->clear_stack();
                accepted = false;
            }
            variables.clear();
            for(auto const& x: visitor->symbol_table().scope(1u)) {
                variables.insert(x.first);
            }
            for(auto const& x: visitor->symbol_table().scope(1u)) {
                Json v;
                v.s("n", x.first).s("v", shown(*x.second));
                values.push_back(v.text + "}");
            }
            step.raw("stack", stack_of(visitor->stack()));
        }
        if(interpret && accepted && !check) { variables = now; }
        step.s("outcome", outcome).raws("vars", values).raw("log",
            ev::str_list(happened));
        steps.push_back(step.text + "}");
    }
    j.raws("steps", steps);
    ev::end(j);
}

// What the parser of source code refuses to parse. This is thrown by it.
std::function<void()> refuse;

// What is thrown by parsing.
template<typename Parse>
std::string refusal(Parse const& parse)
{
    try { parse(); return "ok"; }
    catch(fern::ParseError const& x) { return "ParseError " + x.message(); }
    catch(fern::IOError const& x) { return "IOError " + x.message(); }
    catch(std::exception const&) { return "other"; }
}

void refused(Rng& rng)
{
    std::vector<std::string> const words = {"m", "a.ran", "<string>", "x y",
        "if", "it is wrong", "q"};
    std::string const kind = rng.pick<std::string>({"parse", "statement",
        "construct", "io", "document"});
    std::string const how = rng.pick<std::string>({"string", "file",
        "input"});
    std::string const source = rng.pick(words), text = rng.pick(words),
        statement = rng.pick(words);
    int const line = rng.range(0, 99), col = rng.range(0, 99);
    bool const missing = rng.chance(50);
    Json j;
    j.s("op", "refused").s("kind", kind).s("how", how).s("source", source)
        .s("text", text).s("statement", statement).i("line", line)
        .i("col", col).b("missing", missing);
    ev::begin(j);
    std::string wrong;
    if(kind == "document") {
        // One that the parser of documents refuses.
        wrong = rng.pick<std::string>({"<Fern source=\"m\">", "",
            "<Fern/>", "<Fern source=\"m\">\n<Statements>\n"
            "<Statement/>\n</Statements></Fern>"});
        std::string expected;
        try { fl::XmlParser().parse_string(wrong); }
        catch(detail::ParseError const& x) {
            expected = "ParseError Error parsing " +
                *boost::get_error_info<detail::ExceptionSourceName>(x) + ":" +
                std::to_string(
                    *boost::get_error_info<detail::ExceptionLineNr>(x)) + ":" +
                std::to_string(
                    *boost::get_error_info<detail::ExceptionColNr>(x)) + ": " +
                *boost::get_error_info<detail::ExceptionMessage>(x);
        }
        j.s("expected", expected);
        refuse = nullptr;
    }
    else {
        refuse = [&]() {
            if(kind == "io" ) {
                throw detail::IOError() << detail::ExceptionSourceName(source)
                    << boost::errinfo_errno(missing ? ENOENT : EACCES);
            }
            else if(kind == "construct") {
                throw detail::UnsupportedLanguageConstruct()
                    << detail::ExceptionSourceName(source)
                    << detail::ExceptionConstruct(text)
                    << detail::ExceptionLineNr(line)
                    << detail::ExceptionColNr(col);
            }
            else if(kind == "statement") {
                throw detail::ParseError()
                    << detail::ExceptionSourceName(source)
                    << detail::ExceptionStatement(statement)
                    << detail::ExceptionMessage(text)
                    << detail::ExceptionLineNr(line)
                    << detail::ExceptionColNr(col);
            }
            throw detail::ParseError()
                << detail::ExceptionSourceName(source)
                << detail::ExceptionMessage(text)
                << detail::ExceptionLineNr(line)
                << detail::ExceptionColNr(col);
        };
    }
    std::vector<fl::OperationPtr> none;
    known_operations = std::make_shared<fl::Operations>(none);
    fl::Interpreter const interpreter;
    std::istringstream input(wrong);
    std::streambuf* const before = std::cin.rdbuf(input.rdbuf());
    document = wrong;
    std::string const outcome = refusal([&]() {
        if(how == "string") { interpreter.parse_string(wrong); }
        else if(how == "file") { interpreter.parse_file("some.ran"); }
        else { interpreter.parse_file(""); }
    });
    std::cin.rdbuf(before);
    // Afterwards, it can be used again.
    refuse = nullptr;
    document = "<Fern source=\"m\"><Statements/></Fern>";
    j.s("outcome", outcome).s("again", refusal([&]() {
        how == "file" ? interpreter.parse_file("some.ran") :
            interpreter.parse_string(document); }));
    ev::end(j);
}

void execute(Rng& rng) { session(rng, false); }
void interpret(Rng& rng) { session(rng, true); }

} // namespace

namespace fern {
namespace python {

Client::Client() {}
Client::~Client() {}

} // namespace python

namespace language {

std::shared_ptr<Operations> const& operations() { return known_operations; }

std::shared_ptr<Dataset> open_dataset(std::string const&, OpenMode,
    std::string const&)
{
    return std::make_shared<Data>();
}

AlgebraParser::AlgebraParser() {}

std::string AlgebraParser::parse_string(std::string const& string) const
{
    if(refuse) { refuse(); }
    return string;
}

std::string AlgebraParser::parse_file(std::string const&) const
{
    if(refuse) { refuse(); }
    return document;
}

} // namespace language
} // namespace fern

int main(int argc, char** argv)
{
    ev::kinds() = {execute, interpret, execute, interpret, execute, interpret,
        execute, interpret, refused};
    return ev::main(argc, argv);
}
