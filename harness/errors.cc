// Messages and errors.
#include <cassert>
#include <cerrno>
#include <cstring>
#include <string>
#include <vector>
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/core/validate_error.h"
#include "events.h"

namespace {

using namespace ev;
using namespace fern;

struct Id { MessageId id; char const* name; int nr_arguments; };

#define ID(name, n) {MessageId::name, #name, n}
std::vector<Id> const ids{
    ID(UNKNOWN_ERROR, 0), ID(IO_ERROR, 2), ID(DOES_NOT_EXIST, 0),
    ID(CANNOT_BE_READ, 0), ID(CANNOT_BE_WRITTEN, 0), ID(CANNOT_BE_CREATED, 0),
    ID(DOES_NOT_CONFORM_TO_CONVENTION, 1), ID(DOES_NOT_CONTAIN_VARIABLE, 1),
    ID(VARIABLE_IS_NOT_A_SCALAR, 1), ID(DOES_NOT_CONTAIN_FEATURE, 1),
    ID(DOES_NOT_CONTAIN_ATTRIBUTE, 1), ID(DOES_NOT_CONTAIN_DATA, 1),
    ID(UNSUPPORTED_VALUE_TYPE, 2), ID(NO_SUCH_DRIVER, 1), ID(ERROR_PARSING, 4),
    ID(ERROR_PARSING_STATEMENT, 5), ID(UNSUPPORTED_LANGUAGE_CONSTRUCT, 1),
    ID(UNDEFINED_IDENTIFIER, 1), ID(UNDEFINED_OPERATION, 1),
    ID(WRONG_NUMBER_OF_ARGUMENTS, 3), ID(WRONG_TYPE_OF_ARGUMENT, 4),
    ID(ERROR_VALIDATING, 4)};
#undef ID

std::vector<std::string> const words{"a", "file.map", "/d e/f:1.txt", "%", "%1%",
    "%2% of %%", "x = y", "{0}", "\"q\"", "back\\slash", "two\nlines", "%s", "|3|",
    ": ", "12", " "};

std::string word(Rng& rng)
{
    std::string t = rng.pick(words);
    while(rng.chance(25)) t += rng.pick(words);
    return t;
}

std::string maybe_word(Rng& rng) { return rng.chance(10) ? "" : word(rng); }

long number(Rng& rng)
{
    switch(rng.range(0, 5)) {
        case 0: return 0;
        case 1: return -static_cast<long>(rng.range(1, 9));
        case 2: return rng.range(1000, 2000000);
        case 3: return std::numeric_limits<long>::max();
        default: return rng.range(1, 120);
    }
}

// -----------------------------------------------------------------------------

// Of an argument either its text or, of a number, the number is passed.
struct Argument { std::string text; long number; bool is_number; };

template<typename... Done>
std::string formatted(MessageId id, std::vector<Argument> const& a,
    Done const&... done)
{
    constexpr size_t n = sizeof...(Done);
    if constexpr(n > 0) {
        if(n == a.size()) return Exception::messages().format_message(id, done...);
    }
    if constexpr(n < 4) {
        if(n < a.size()) {
            if(a[n].is_number) return formatted(id, a, done..., a[n].number);
            return formatted(id, a, done..., a[n].text);
        }
    }
    return Exception::messages()[id];
}

std::vector<Argument> arguments_of(Rng& rng, Id const& id)
{
    std::vector<Argument> result;
    for(int k = 0; k < id.nr_arguments; ++k) {
        Argument a;
        a.is_number = rng.chance(30);
        a.number = number(rng);
        a.text = a.is_number ? std::to_string(a.number) : maybe_word(rng);
        result.push_back(a);
    }
    return result;
}

std::string texts_of(std::vector<Argument> const& arguments)
{
    std::vector<std::string> texts;
    for(auto const& a: arguments) texts.push_back(a.text);
    return str_list(texts);
}

void messages(Rng& rng)
{
    Id id = rng.pick(ids);
    while(id.nr_arguments > 4) id = rng.pick(ids);
    auto const arguments = arguments_of(rng, id);
    Json j;
    j.s("op", "text").s("id", id.name).raw("args", texts_of(arguments));
    ev::begin(j);
    j.s("text", formatted(id.id, arguments));
    ev::end(j);
}

void templates(Rng& rng)
{
    Id const id = rng.pick(ids);
    Json j;
    j.s("op", "template").s("id", id.name).i("n", id.nr_arguments);
    ev::begin(j);
    Messages const own;
    Exception const exception(id.id);
    j.s("shared", Exception::messages()[id.id]).s("own", own[id.id])
        .s("thrown", exception.message());
    ev::end(j);
}

// -----------------------------------------------------------------------------

// What is thrown is caught as each of the types it is one of.
template<typename As, typename E>
bool caught_as(E const& error, std::string& message)
{
    try {
        throw E(error);
    }
    catch(As const& e) {
        if(auto p = dynamic_cast<Exception const*>(&e)) message = p->message();
        return true;
    }
    catch(...) {
        return false;
    }
}

template<typename E>
void judge(Json& j, E const& first, E other)
{
    std::string const at_first = first.message();
    std::string io, parse, validate, script, exception, std_;
    std::vector<bool> caught{
        caught_as<IOError>(first, io), caught_as<ParseError>(first, parse),
        caught_as<ValidateError>(first, validate),
        caught_as<ScriptError>(first, script),
        caught_as<Exception>(first, exception),
        caught_as<std::exception>(first, std_)};
    E copied(first);
    std::string const copy = copied.message();
    E moved(std::move(copied));
    std::string const move = moved.message();
    other = first;
    std::string const assigned = other.message();
    E target(other);
    target = std::move(other);
    j.s("message", at_first).bs("caught", caught)
        .raw("texts", str_list({io, parse, validate, script, exception, std_}))
        .raw("copies", str_list({copy, move, assigned, target.message(),
            first.message()}));
}

void errors(Rng& rng)
{
    std::string const kind = rng.pick<std::string>({"io", "errno", "composed",
        "parse", "statement", "validate", "plain"});
    std::string const name = word(rng);
    long const line = number(rng), col = number(rng);
    std::string const statement = word(rng);
    std::string reason = maybe_word(rng);
    int const error = rng.pick<int>({ENOENT, EACCES, EEXIST, ENOSPC, EISDIR, 0});
    Id id = rng.pick(ids);
    while(id.nr_arguments > 4 || (kind == "plain" && id.nr_arguments > 0)) {
        id = rng.pick(ids);
    }
    auto const arguments = arguments_of(rng, id);
    if(kind == "errno") reason = std::strerror(error);
    Json j;
    j.s("op", "error").s("kind", kind).s("name", name)
        .s("line", std::to_string(line)).s("col", std::to_string(col))
        .s("statement", statement).s("reason", reason).s("id", id.name)
        .raw("args", texts_of(arguments));
    ev::begin(j);
    if(kind == "io") {
        judge(j, IOError(name, reason), IOError("o", "o"));
    }
    else if(kind == "errno") {
        judge(j, IOError(name, error), IOError("o", EPERM));
    }
    else if(kind == "composed") {
        judge(j, IOError(name, formatted(id.id, arguments)), IOError("o", "o"));
    }
    else if(kind == "parse") {
        judge(j, ParseError(name, line, col, reason),
            ParseError("o", 1, 2, "o"));
    }
    else if(kind == "statement") {
        judge(j, ParseError(name, line, col, statement, reason),
            ParseError("o", 1, 2, "o"));
    }
    else if(kind == "validate") {
        judge(j, ValidateError(name, line, col, reason),
            ValidateError("o", 1, 2, "o"));
    }
    else {
        judge(j, Exception(id.id), Exception(MessageId::UNKNOWN_ERROR));
    }
    ev::end(j);
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {messages, templates, errors, errors};
    return ev::main(argc, argv);
}
