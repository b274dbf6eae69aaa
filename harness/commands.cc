// The fern program: its commands are run in a process of their own, in a
// scratch directory. The parser of source code needs an old Python: here,
// scripts are the documents that it would make.
#include <cassert>
#include <cerrno>
#include <cstring>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <readline/readline.h>
#include <readline/history.h>
#include "fern/core/exception.h"
#include "fern/core/io_error.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/core/constant_attribute.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"
#include "fern/language/ast/visitor/ast_dot_visitor.h"
#include "fern/language/ast/visitor/flowgraph_dot_visitor.h"
#include "fern/language/compiler/module.h"
#include "fern/language/compiler/parse_command_line.h"
#include "fern/language/interpreter/constant_source.h"
#include "fern/language/interpreter/dataset_source.h"
#include "fern/language/interpreter/dataset_sync.h"
#include "fern/language/interpreter/interpreter.h"
#include "fern/language/io/drivers.h"
#include "fern/language/io/fern/fern_client.h"
#include "fern/language/io/fern/fern_dataset.h"
#include "fern/language/io/fern/fern_driver.h"
#include "fern/language/io/fern/hdf5_client.h"
#include "fern/language/io/io_client.h"
#include "fern/language/ast/core/vertices.h"
#include "program.h"

#define main fern_main
#include "fern/language/command/fern.cc"
#undef main

using namespace fern;
using namespace prog;
namespace fs = std::filesystem;

namespace {

// -----------------------------------------------------------------------------
// Operations: what they are called with is written to a file.

void note(std::string const& word)
{
    std::ofstream("log", std::ios::app) << word << "\n";
}

ExpressionType text_type()
{
    return ExpressionType(DataTypes::CONSTANT, ValueTypes::STRING);
}

struct Note: fl::Operation
{
    Note(std::string const& name, bool fails)
        : fl::Operation(name, "an operation",
            {fl::Parameter("p", "a parameter", DataTypes::CONSTANT,
                ValueTypes::STRING)},
            {fl::Result("r", "a result", text_type())}), fails(fails) {}

    ExpressionType expression_type(size_t,
        std::vector<ExpressionType> const&) const override
    {
        return text_type();
    }

    std::vector<std::shared_ptr<fl::Argument>> execute(
        std::vector<std::shared_ptr<fl::Argument>> const& arguments) const
        override
    {
        auto const& argument(dynamic_cast<fl::AttributeArgument const&>(
            *arguments.at(0)));
        std::string const word = dynamic_cast<
            fl::ConstantAttribute<std::string> const&>(
                *argument.attribute()).values().value();
        if(fails) { throw std::runtime_error("failed at " + word); }
        note(word);
        return {std::make_shared<fl::AttributeArgument>(
            std::make_shared<fl::ConstantAttribute<std::string>>(
                word + "!"))};
    }

    bool fails;
};

std::shared_ptr<fl::Operations> known_operations;

// -----------------------------------------------------------------------------
// Scripts.

struct Call { std::string name, word; bool assigned; };

Node text_node(std::string const& word)
{
    Node x;
    x.k = "str";
    x.v = word;
    return x;
}

Node name_node(std::string const& name)
{
    Node x;
    x.k = "name";
    x.n = name;
    return x;
}

Node call_node(std::string const& name, std::string const& word)
{
    Node x;
    x.k = "call";
    x.n = name;
    x.a = {text_node(word)};
    return x;
}

Node assigned(std::string const& name, Node const& value)
{
    Node x;
    x.k = "assign";
    x.a = {name_node(name), value};
    return x;
}

std::string xml(Block const& block, std::string const& source)
{
    Rng none(1);
    return Xml(none, false)(block, source);
}

std::vector<std::string> const words = {"a", "b", "c", "d"};

std::string script(Rng& g, Json& j)
{
    std::string const kind = g.pick<std::string>({"good", "good", "good",
        "fails", "unknown", "wrong"});
    std::vector<std::string> used;
    Block block;
    int const nr = g.range(0, 4), at = g.range(0, nr);
    for(int k = 0; k <= nr; ++k) {
        std::string const word = g.pick(words);
        std::string name = "note";
        if(k == at && kind == "fails") { name = "fail"; }
        else if(k == at && kind == "unknown") { name = "nope"; }
        if(kind == "good" && k == nr) { break; }
        used.push_back(word);
        Node const x = call_node(name, word);
        std::string const to = "x" + std::to_string(g.range(0, 1));
        bool const assign = g.chance(50);
        block.push_back(assign ? assigned(to, x) : x);
        if(assign && g.chance(50)) { block.push_back(name_node(to)); }
    }
    j.s("kind", kind).raw("words", ev::str_list(used)).i("at", at);
    std::string const text = xml(block, "m");
    return kind == "wrong" ? text.substr(0, text.size() - 3) : text;
}

std::string slurp(fs::path const& path)
{
    std::ifstream file(path);
    std::ostringstream stream;
    stream << file.rdbuf();
    return stream.str();
}

std::vector<std::string> lines(std::string const& text)
{
    std::vector<std::string> result;
    std::istringstream stream(text);
    std::string line;
    while(std::getline(stream, line)) { result.push_back(line); }
    return result;
}

std::string document(std::string const& name);

// -----------------------------------------------------------------------------
// Running the program.

std::string home;                 // Scratch directory.

struct Ran { std::string status, out; std::vector<std::string> err; };

Ran run(std::vector<std::string> const& arguments, std::string const& input)
{
    std::ofstream("../in") << input;
    std::fflush(nullptr);
    pid_t const pid = fork();
    if(pid == 0) {
        ev::armed = 0;
        for(int s: {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) {
            signal(s, SIG_DFL);
        }
        int const in = open("../in", O_RDONLY);
        int const out = open("../out", O_WRONLY | O_CREAT | O_TRUNC, 0644);
        int const err = open("../err", O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if(in < 0 || out < 0 || err < 0) { _exit(99); }
        dup2(in, 0);
        dup2(out, 1);
        dup2(err, 2);
        alarm(60);
        setenv("HOME", "..", 1);
        std::vector<std::string> copies = {"fern"};
        copies.insert(copies.end(), arguments.begin(), arguments.end());
        std::vector<char*> argv;
        for(auto& x: copies) { argv.push_back(x.data()); }
        argv.push_back(nullptr);
        int const status = fern_main(copies.size(), argv.data());
        std::cout.flush();
        std::cerr.flush();
        std::fflush(nullptr);
        _exit(status == EXIT_SUCCESS ? 0 : status == EXIT_FAILURE ? 1 : 2);
    }
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Ran result;
    result.status = !WIFEXITED(status) ? "crash" :
        WEXITSTATUS(status) == 0 ? "success" :
        WEXITSTATUS(status) == 1 ? "failure" : "crash";
    result.out = slurp("../out");
    result.err = lines(slurp("../err"));
    return result;
}

// Of help, only what it is about is told.
std::vector<std::string> told(std::string const& text)
{
    std::vector<std::string> result;
    for(auto const& line: lines(text)) {
        if(line.rfind("usage: fern", 0) == 0) {
            std::istringstream stream(line);
            std::string word, about;
            while(stream >> word) {
                if(word[0] == '[' || (word[0] >= 'A' && word[0] <= 'Z')) {
                    break;
                }
                about += (about.empty() ? "" : " ") + word;
            }
            result.push_back(about);
            return result;
        }
        result.push_back(line);
    }
    return result;
}

struct Hdf5: fl::HDF5Client { Hdf5() {} };
struct Fern: fl::FernClient { Fern() {} };

std::unique_ptr<Hdf5> hdf5;

void make_store(std::string const& name, std::vector<std::string> const& paths)
{
    auto dataset = fl::FernDriver().open(name, fl::OpenMode::OVERWRITE);
    int64_t k = 0;
    for(auto const& path: paths) {
        dataset->write_attribute(fl::ConstantAttribute<int64_t>(++k), path);
    }
}

int count = 0;

// All files, with what is in them.
std::vector<std::string> contents()
{
    std::vector<std::string> result;
    for(auto const& x: fs::recursive_directory_iterator(".")) {
        std::string const name = x.path().lexically_normal().generic_string();
        if(name == "log" || name.find(".h5") != std::string::npos) { continue; }
        result.push_back(fs::is_directory(x.path()) ? name + "/" :
            name + ":" + std::to_string(std::hash<std::string>()(
                slurp(x.path())) % 1000003));
    }
    std::sort(result.begin(), result.end());
    return result;
}

// Vertices are named by their addresses: here, by their order.
std::string renamed(std::string const& text)
{
    std::map<std::string, std::string> names;
    std::string result;
    for(size_t k = 0; k < text.size();) {
        if(text.compare(k, 2, "0x") != 0) { result += text[k++]; continue; }
        size_t l = k + 2;
        while(l < text.size() && std::isxdigit(text[l])) { ++l; }
        std::string const name = text.substr(k, l - k);
        auto const n = names.emplace(name, "v" + std::to_string(names.size()));
        result += n.first->second;
        k = l;
    }
    return result;
}

// Graphs of the trees of the scripts.
std::map<std::string, std::string> graphs(std::string const& text)
{
    std::map<std::string, std::string> result;
    std::ofstream("../script") << text;
    for(int k = 0; k < 5; ++k) {
        fl::Interpreter interpreter;
        try {
            auto tree = interpreter.parse_file("../script");
            interpreter.annotate(tree);
            if(k == 4) {
                fl::FlowgraphDotVisitor visitor;
                tree->Accept(visitor);
                result["flowgraph"] = renamed(visitor.script());
            }
            else {
                fl::AstDotVisitor visitor(
                    (k % 2 == 1 ? fl::AstDotVisitor::ConnectingCfg : 0) |
                    (k / 2 == 1 ? fl::AstDotVisitor::ConnectingUses : 0));
                tree->Accept(visitor);
                result["ast" + std::to_string(k)] = renamed(visitor.script());
            }
        }
        catch(std::exception const&) { return {}; }
    }
    return result;
}

void command(Rng& g)
{
    ++count;
    std::string const dir = "c" + std::to_string(count);
    fs::create_directories(dir + "/w/some");
    fs::current_path(dir + "/w");
    Json j;
    j.s("op", "command");

    // Scripts.
    std::map<std::string, std::string> scripts;
    std::vector<std::string> about;
    for(auto const& name: {"-", "s.ran", "t.ran"}) {
        Json s;
        s.s("name", name);
        scripts[name] = script(g, s);
        about.push_back(s.text + "}");
        if(std::string(name) != "-") { std::ofstream(name) << scripts[name]; }
    }
    j.raws("scripts", about);
    std::ofstream("old") << "old";

    // A store.
    std::vector<std::string> paths;
    for(int k = g.range(0, 4); k > 0; --k) {
        std::string path;
        for(int l = g.range(1, 3); l > 0; --l) {
            // The last name is that of an attribute.
            path += "/" + g.pick<std::string>(l == 1 ?
                std::vector<std::string>{"x", "y"} :
                std::vector<std::string>{"f", "g"});
        }
        paths.push_back(path);
    }
    make_store("d.h5", paths);
    j.raw("paths", ev::str_list(paths));

    std::vector<std::string> a, names;
    std::string file;                    // What is described.
    auto any = [&](std::vector<std::string> const& all) {
        a.push_back(g.pick(all));
    };
    std::string const what = g.pick<std::string>({"", "describe", "describe",
        "execute", "execute", "import", "ast", "ast", "ast", "flowgraph",
        "flowgraph", "compile", "dot", "c++", "xml"});
    std::vector<std::string> const inputs = {"s.ran", "s.ran", "t.ran", "-",
        "no.ran", "some"};
    std::vector<std::string> const outputs = {"new", "old", "some/new",
        "no/new", "some"};
    if(what == "") {
        any({"--help", "--version", "--build", "nothing", "Execute", "",
            "--hel", "execute ", "dot"});
        if(g.chance(30)) { any({"--help", "s.ran", "dot"}); }
    }
    else {
        bool const dot = what == "ast" || what == "flowgraph" || what == "dot";
        if(dot) { a = {"compile", "dot"}; }
        else if(what == "c++" || what == "xml") { a = {"compile"}; }
        if(what != "dot") { a.push_back(what); }
        if(g.chance(6)) { a.push_back("--help"); }
        if(g.chance(3)) { a.push_back("nothing"); }
        if(what == "describe") {
            if(g.chance(85)) {
                std::string name = g.chance(80) ? "d.h5" :
                    g.pick<std::string>({"no.h5", "s.ran"});
                file = name;
                if(g.chance(70)) {
                    name += g.chance(50) ? ":" : ":/";
                    for(int l = g.range(0, 3); l > 0; --l) {
                        names.push_back(g.pick<std::string>({"f", "f", "g",
                            "x"}));
                        name += names.back() + (l > 1 || g.chance(30) ?
                            g.chance(80) ? "/" : "//" : "");
                    }
                    if(names.empty() && name.back() == ':') { name += "/"; }
                }
                a.push_back(name);
            }
        }
        else if(what == "compile" || what == "dot") {
            any({"java", "AST", "fern ", "graph"});
        }
        else if(what == "import") {
            for(int k = g.range(0, 3); k > 0; --k) any({"d.h5", "no.h5"});
        }
        else {
            std::vector<std::string> const flags =
                what == "ast" ?
                    std::vector<std::string>{"--with-cfg", "--with-use"} :
                what == "c++" ?
                    std::vector<std::string>{"--dump_driver", "--dump_cmake"} :
                    std::vector<std::string>{};
            while(!flags.empty() && g.chance(50)) { any(flags); }
            if(g.chance(93)) any(inputs);
            if(what != "execute" && g.chance(70)) {
                if(what == "c++") any({"some", "some", "no", ".", "old"});
                else any(outputs);
            }
        }
        if(g.chance(10)) { any({"--help", "more", "s.ran"}); }
        if(g.chance(5)) { any({"--help", "more", "s.ran"}); }
    }
    // What is described is an argument that is understood.
    if(what == "describe" && a.size() > 1 && file.empty()) { file = a[1]; }
    j.s("file", file).raw("names", ev::str_list(names));
    j.raw("argv", ev::str_list(a));
    ev::begin(j);
    std::string const input = scripts["-"];
    std::vector<std::string> const before = contents();
    Ran const ran = run(a, input);
    std::vector<std::string> wrote;
    for(auto const& x: contents()) {
        if(std::find(before.begin(), before.end(), x) == before.end()) {
            wrote.push_back(x);
        }
    }
    size_t lost = 0;
    for(auto const& x: before) {
        std::string const name = x.substr(0, x.find(':'));
        lost += !fs::exists(name);
    }
    // What was shown and written, by the graphs that are known.
    auto named = [&](std::string const& text) {
        std::vector<std::string> result;
        std::string const name = renamed(text);
        for(auto const& s: scripts) {
            for(auto const& x: graphs(s.second)) {
                if(x.second == name) {
                    result.push_back(s.first + ":" + x.first);
                }
            }
        }
        return result;
    };
    std::vector<std::string> const shown = named(ran.out);
    std::vector<std::string> files;
    for(auto const& x: wrote) {
        std::string const name = x.substr(0, x.find(':'));
        Json f;
        f.s("name", name).raw("graphs", ev::str_list(
            fs::is_directory(name) ? std::vector<std::string>() :
            named(slurp(name))));
        files.push_back(f.text + "}");
    }
    // Only when scripts can be shown, they are compared with graphs.
    j.s("status", ran.status)
        .raw("out", ev::str_list(shown.empty() ? told(ran.out) :
            std::vector<std::string>()))
        .raw("graphs", ev::str_list(shown)).raw("err", ev::str_list(ran.err))
        .raws("wrote", files).i("lost", lost)
        .raw("log", ev::str_list(lines(slurp("log"))));
    fs::current_path("../..");
    fs::remove_all(dir);
    ev::end(j);
}

// -----------------------------------------------------------------------------
// The interpreter: what is typed, and what is shown.

void session(Rng& g)
{
    ++count;
    std::string const dir = "c" + std::to_string(count);
    fs::create_directories(dir + "/w");
    fs::current_path(dir + "/w");
    std::string input;
    std::vector<std::string> typed, texts;
    for(int k = g.range(0, 6); k > 0; --k) {
        Block block;
        std::vector<std::string> parts;
        bool const wrong = g.chance(10);
        for(int l = g.chance(70) ? 1 : g.range(0, 3); l > 0; --l) {
            std::string const kind = g.pick<std::string>({"text", "int",
                "float", "name", "set", "set", "call", "fail"});
            std::string const name = g.pick<std::string>({"x", "y"});
            std::string const word = g.pick(words);
            int const value = g.range(-3, 300);
            Node x;
            if(kind == "text") { x = text_node(word); }
            else if(kind == "int" || kind == "float") {
                x.k = "num";
                x.n = kind == "int" ? g.pick<std::string>({"int16", "int32",
                    "int64", "uint16", "uint64"}) :
                    g.pick<std::string>({"float32", "float64"});
                x.v = std::to_string(x.n[0] == 'u' ? std::abs(value) : value) +
                    (kind == "float" ? ".5" : "");
            }
            else if(kind == "name") { x = name_node(name); }
            else if(kind == "set") {
                x = assigned(name, text_node(word));
            }
            else { x = call_node(kind == "call" ? "note" : "fail", word); }
            block.push_back(x);
            Json p;
            p.s("kind", kind).s("name", name).s("word", word).s("value", x.v);
            parts.push_back(p.text + "}");
        }
        std::string text = xml(block, "m");
        text = text.substr(text.find('\n') + 1);
        if(wrong) { text = text.substr(0, text.size() - 3); }
        input += text + "\n";
        texts.push_back(text);
        Json t;
        t.b("wrong", wrong).raws("parts", parts);
        typed.push_back(t.text + "}");
    }
    if(g.chance(20) && !input.empty()) {
        input.pop_back();                // Not ended by a newline.
    }
    Json j;
    j.s("op", "session").raws("typed", typed);
    ev::begin(j);
    Ran const ran = run({}, input);
    // Without what is typed.
    std::vector<std::string> out;
    for(auto const& line: lines(ran.out)) {
        if(line.rfind(">>> ", 0) != 0) { out.push_back(line); }
    }
    j.s("status", ran.status).raw("out", ev::str_list(out))
        .i("err", ran.err.size())
        .b("remembered", lines(slurp("../.fern")) == texts)
        .raw("log", ev::str_list(lines(slurp("log"))));
    fs::current_path("../..");
    fs::remove_all(dir);
    ev::end(j);
}

// -----------------------------------------------------------------------------
// The arguments of programs that are made of scripts.

struct Program: fl::Module
{
    Program(std::vector<fl::DataDescription> const& arguments,
        std::vector<fl::DataDescription> const& results)
        : fl::Module(arguments, results) {}
    void check(std::vector<std::shared_ptr<fl::DataSource>> const& sources,
        std::vector<std::shared_ptr<fl::DataSync>> const& syncs) const
    {
        check_sources_and_syncs(sources, syncs);
    }
    void run(std::vector<std::shared_ptr<fl::DataSource>> const&,
        std::vector<std::shared_ptr<fl::DataSync>> const&) const {}
};

template<typename T>
bool constant(fl::DataSource const& source, fl::Attribute const& attribute,
    char const* name, std::string& text)
{
    if(!dynamic_cast<fl::ConstantSource<T> const*>(&source)) { return false; }
    auto const* x = dynamic_cast<fl::ConstantAttribute<T> const*>(&attribute);
    if(!x) { text = "?"; return true; }
    std::ostringstream stream;
    stream.precision(17);
    stream << x->values().value();
    text = std::string(name) + ":" + stream.str();
    return true;
}

std::string source_text(fl::DataSource const& source)
{
    auto const argument = std::dynamic_pointer_cast<fl::AttributeArgument>(
        source.read());
    if(!argument) { return "?"; }
    std::string text = "?";
    if(dynamic_cast<fl::DatasetSource const*>(&source)) {
        auto const* x = dynamic_cast<fl::ConstantAttribute<int64_t> const*>(
            argument->attribute().get());
        return x ? "data:" + std::to_string(x->values().value()) : "?";
    }
    constant<int64_t>(source, *argument->attribute(), "int", text) ||
        constant<double>(source, *argument->attribute(), "float", text) ||
        constant<std::string>(source, *argument->attribute(), "text", text);
    return text;
}

void arguments(Rng& g)
{
    ++count;
    std::string const dir = "c" + std::to_string(count);
    fs::create_directories(dir + "/w");
    fs::current_path(dir + "/w");
    Fern const client;
    make_store("d.h5", {"/x", "/f/x"});
    make_store("7", {"/x"});
    make_store("2.5", {"/x"});
    static std::vector<std::string> const values = {"5", "-3", "007", "0",
        "9223372036854775807", "-9223372036854775808", "1.5", "-0.25", "1e3",
        "2.5e-1", "abc", "5 a", "a5", "1.5.2", "--", "d.h5:x", "d.h5:/x",
        "d.h5:f/x", "d.h5", "d.h5:y", "no.h5:x", "7:x", "7", "2.5:x", "x y"};
    int const nr = g.range(0, 5), sources = g.range(0, 3),
        syncs = g.range(0, 3), given = g.chance(60) ? nr :
            sources + g.range(0, syncs);
    std::vector<std::string> all, names, results;
    for(int k = 0; k < given; ++k) {
        all.push_back(k < sources ? g.pick(values) :
            g.pick<std::string>({"e.h5:x", "e.h5", "f.h5:f/y", "d.h5:x",
                "no/e.h5:x"}));
    }
    std::vector<fl::DataDescription> describe_sources, describe_syncs;
    for(int k = 0; k < sources; ++k) {
        names.push_back(g.pick<std::string>({"a", "b", "a b"}));
        describe_sources.emplace_back(names.back());
    }
    for(int k = 0; k < syncs; ++k) {
        results.push_back(g.pick<std::string>({"r", "s", "a"}));
        describe_syncs.emplace_back(results.back());
    }
    Json j;
    j.s("op", "arguments").raw("given", ev::str_list(all)).i("sources", sources)
        .i("syncs", syncs).raw("names", ev::str_list(names))
        .raw("results", ev::str_list(results));
    ev::begin(j);
    std::string status = "fine", check = "none", more = "none";
    std::vector<std::string> from, to;
    std::vector<std::string> described, wrote;
    try {
        Program const module(describe_sources, describe_syncs);
        for(auto const* list: {&module.arguments(), &module.results()}) {
            for(auto const& x: *list) {
                described.push_back(x.name() + "|" + x.description());
            }
            described.push_back("");
        }
        std::vector<std::string> copies = {"program"};
        copies.insert(copies.end(), all.begin(), all.end());
        std::vector<char*> argv;
        for(auto& x: copies) { argv.push_back(x.data()); }
        auto const parsed = fl::parse_command_line(argv.size(), argv.data(),
            module.arguments(), module.results());
        auto tested = [&](std::vector<std::shared_ptr<fl::DataSource>> const&
            given) -> std::string {
            try { module.check(given, std::get<1>(parsed)); }
            catch(std::invalid_argument const& x) { return x.what(); }
            return "fine";
        };
        check = tested(std::get<0>(parsed));
        auto extra(std::get<0>(parsed));
        extra.push_back(
            std::make_shared<fl::ConstantSource<int64_t>>(int64_t(1)));
        more = tested(extra);
        for(auto const& x: std::get<0>(parsed)) {
            from.push_back(source_text(*x));
        }
        for(auto const& x: std::get<1>(parsed)) {
            auto const sync = std::dynamic_pointer_cast<fl::DatasetSync>(x);
            to.push_back(!sync ? "?" : sync->dataset()->name() +
                (sync->dataset()->open_mode() == fl::OpenMode::OVERWRITE ?
                    "" : "?"));
        }
    }
    catch(std::invalid_argument const& x) { status = x.what(); }
    catch(fern::IOError const&) { status = "IOError"; }
    catch(std::exception const&) { status = "?"; }
    j.s("status", status).raw("from", ev::str_list(from))
        .raw("to", ev::str_list(to)).s("check", check).s("more", more)
        .raw("described", ev::str_list(described));
    fs::current_path("../..");
    fs::remove_all(dir);
    ev::end(j);
}

} // namespace

namespace fern {
namespace python {

Client::Client() {}
Client::~Client() {}

} // namespace python

namespace language {

std::shared_ptr<Operations> const& operations() { return known_operations; }

AlgebraParser::AlgebraParser() {}

std::string AlgebraParser::parse_string(std::string const& string) const
{
    return string;
}

std::string AlgebraParser::parse_file(std::string const& name) const
{
    std::FILE* file = std::fopen(name.c_str(), "r");
    char c;
    bool const fine = file && (std::fread(&c, 1, 1, file) == 1 ||
        !std::ferror(file));
    int const error = errno;
    if(file) { std::fclose(file); }
    if(!fine) {
        throw detail::IOError() << detail::ExceptionSourceName(name)
            << boost::errinfo_errno(error);
    }
    return slurp(name);
}

} // namespace language
} // namespace fern

int main(int argc, char** argv)
{
    ev::kinds() = {command, arguments, command, session, command};
    std::vector<std::shared_ptr<fl::Operation>> all = {
        std::make_shared<Note>("note", false),
        std::make_shared<Note>("fail", true)};
    if(argc != 5) return ev::main(argc, argv);
    // The scratch directory is removed by the parent, also after a crash.
    std::string const out = fs::absolute(argv[4]).string();
    char dir[] = "/tmp/fern-commands-XXXXXX";
    if(!mkdtemp(dir)) return 73;
    std::string const scratch = fs::canonical(dir).string();
    pid_t const pid = fork();
    if(pid == 0) {
        if(chdir(scratch.c_str()) != 0) _exit(74);
        hdf5.reset(new Hdf5);
        known_operations = std::make_shared<fl::Operations>(all);
        argv[4] = const_cast<char*>(out.c_str());
        int const status = ev::main(argc, argv);
        std::fflush(nullptr);
        _exit(status);
    }
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    fs::remove_all(scratch);
    return WIFEXITED(status) ? WEXITSTATUS(status) : 70;
}
