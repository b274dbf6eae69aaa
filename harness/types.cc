// Sets of value types and data types, expression types, and the types of the
// results of operations.
#include <cassert>
#include <sstream>
#include <string>
#include <vector>
#include "fern/core/expression_type.h"
#include "fern/core/type_traits.h"
#include "fern/core/value_type_traits.h"
#include "fern/language/operation/core/expression_type_calculation.h"
#include "fern/language/operation/core/expression_types.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"
#include "events.h"

namespace {

using namespace fern;
using ev::Json;
using ev::Rng;

std::string quoted(std::string const& s) { return "\"" + s + "\""; }

// In the order of the enumerations.
struct V
{
    using Set = ValueTypes;
    static std::vector<std::string> const& names()
    {
        static std::vector<std::string> const result = {"Bool", "Char",
            "Uint8", "Int8", "Uint16", "Int16", "Uint32", "Int32", "Uint64",
            "Int64", "Float32", "Float64", "String"};
        return result;
    }
    static std::vector<Set> const& sets()
    {
        static std::vector<Set> const result = {Set::BOOL, Set::CHAR,
            Set::UINT8, Set::INT8, Set::UINT16, Set::INT16, Set::UINT32,
            Set::INT32, Set::UINT64, Set::INT64, Set::FLOAT32, Set::FLOAT64,
            Set::STRING};
        return result;
    }
    static std::vector<int> const& flags()
    {
        static std::vector<int> const result = {VT_BOOL, VT_CHAR, VT_UINT8,
            VT_INT8, VT_UINT16, VT_INT16, VT_UINT32, VT_INT32, VT_UINT64,
            VT_INT64, VT_FLOAT32, VT_FLOAT64, VT_STRING};
        return result;
    }
};

struct D
{
    using Set = DataTypes;
    static std::vector<std::string> const& names()
    {
        static std::vector<std::string> const result = {"Constant",
            "StaticField"};
        return result;
    }
    static std::vector<Set> const& sets()
    {
        static std::vector<Set> const result = {Set::CONSTANT,
            Set::STATIC_FIELD};
        return result;
    }
    static std::vector<int> const& flags()
    {
        static std::vector<int> const result = {DT_CONSTANT, DT_STATIC_FIELD};
        return result;
    }
};

template<typename Kind>
std::string seen(typename Kind::Set const& set)
{
    std::string result = "[";
    for(size_t k = 0; k < Kind::names().size(); ++k) {
        if(set.test(Kind::flags()[k])) {
            if(result.size() > 1) { result += ","; }
            result += quoted(Kind::names()[k]);
        }
    }
    return result + "]";
}

template<typename Kind>
struct Random
{
    typename Kind::Set set;
    std::string names{"["};

    Random(Rng& rng, bool empty, unsigned within = ~0u, int force = -1)
    {
        int const percent = rng.pick<int>({10, 30, 60, 100});
        bool const any = !(empty && rng.chance(12));
        int const n = Kind::names().size();
        if(force < 0) {
            do { force = rng.range(0, n - 1); } while(!(within >> force & 1));
        }
        if(rng.chance(35)) {
            // Just the one.
            within = 1u << force;
        }
        for(int k = 0; any && k < n; ++k) {
            if(k == force || ((within >> k & 1) && rng.chance(percent))) {
                set |= Kind::sets()[k];
                mask |= 1u << k;
                if(names.size() > 1) { names += ","; }
                names += quoted(Kind::names()[k]);
            }
        }
        names += "]";
    }
    unsigned mask{0};
};

template<typename T>
std::string text(T const& x)
{
    std::ostringstream stream;
    stream << x;
    return stream.str();
}

template<typename Kind>
void flags(Rng& rng)
{
    using Set = typename Kind::Set;
    Json j;
    Random<Kind> a(rng, true), b(rng, true);
    if(rng.chance(30)) {
        // Related ones.
        if(rng.chance(50)) { b.set = a.set; b.names = a.names; }
        else if(a.mask) { b = Random<Kind>(rng, true, a.mask); }
    }
    j.s("op", "flags").raw("a", a.names).raw("b", b.names);
    ev::begin(j);
    Set const x(a.set), y(b.set);
    Set anded(x), ored(x), xored(x), assigned;
    Set& r1 = (anded &= y);
    Set& r2 = (ored |= y);
    Set& r3 = (xored ^= y);
    assigned = x;
    j.raw("and", seen<Kind>(x & y)).raw("or", seen<Kind>(x | y))
        .raw("and2", seen<Kind>(anded)).raw("or2", seen<Kind>(ored))
        .raw("xor", seen<Kind>(xored))
        .b("refs", &r1 == &anded && &r2 == &ored && &r3 == &xored)
        .raw("same", seen<Kind>(x)).raw("copy", seen<Kind>(assigned))
        .b("eq", x == y).b("ne", x != y).i("count", x.count())
        .b("none", x.none()).b("any", x.any()).b("fixed", x.fixed())
        .b("subset", x.is_subset_of(y)).s("text", x.to_string())
        .s("stream", text(x));
    ev::end(j);
}

void names(Rng&)
{
    Json j;
    j.s("op", "names");
    ev::begin(j);
    std::vector<std::string> given;
    auto const add = [&](std::string const& what, std::string const& name,
            std::string const& set) {
        Json n;
        n.s("by", what).s("name", name).raw("set", set);
        given.push_back(n.text + "}");
    };
    for(auto const& name: {"Bool", "Char", "Uint8", "Int8", "Uint16", "Int16",
            "Uint32", "Int32", "Uint64", "Int64", "Size", "Float32",
            "Float64", "String", "Number", "All"}) {
        add("text", name, seen<V>(ValueTypes::from_string(name)));
    }
    for(auto const& name: {"Constant", "StaticField", "All"}) {
        add("text of data", name, seen<D>(DataTypes::from_string(name)));
    }
    add("constant", "UNKNOWN", seen<V>(ValueTypes::UNKNOWN));
    add("constant", "UNSIGNED_INTEGER", seen<V>(ValueTypes::UNSIGNED_INTEGER));
    add("constant", "SIGNED_INTEGER", seen<V>(ValueTypes::SIGNED_INTEGER));
    add("constant", "INTEGER", seen<V>(ValueTypes::INTEGER));
    add("constant", "SIZE", seen<V>(ValueTypes::SIZE));
    add("constant", "FLOATING_POINT", seen<V>(ValueTypes::FLOATING_POINT));
    add("constant", "NUMBER", seen<V>(ValueTypes::NUMBER));
    add("constant", "ALL", seen<V>(ValueTypes::ALL));
    add("data", "UNKNOWN", seen<D>(DataTypes::UNKNOWN));
    add("data", "ALL", seen<D>(DataTypes::ALL));
    add("type", "Bool", seen<V>(TypeTraits<bool>::value_types));
    add("type", "Char", seen<V>(TypeTraits<char>::value_types));
    add("type", "Uint8", seen<V>(TypeTraits<uint8_t>::value_types));
    add("type", "Int8", seen<V>(TypeTraits<int8_t>::value_types));
    add("type", "Uint16", seen<V>(TypeTraits<uint16_t>::value_types));
    add("type", "Int16", seen<V>(TypeTraits<int16_t>::value_types));
    add("type", "Uint32", seen<V>(TypeTraits<uint32_t>::value_types));
    add("type", "Int32", seen<V>(TypeTraits<int32_t>::value_types));
    add("type", "Uint64", seen<V>(TypeTraits<uint64_t>::value_types));
    add("type", "Int64", seen<V>(TypeTraits<int64_t>::value_types));
    add("type", "Float32", seen<V>(TypeTraits<float>::value_types));
    add("type", "Float64", seen<V>(TypeTraits<double>::value_types));
    add("type", "String", seen<V>(TypeTraits<std::string>::value_types));
    j.raws("given", given);
    ev::end(j);
}

struct Type
{
    ExpressionType type;
    std::string json;

    Type(Rng& rng, bool may_be_unknown)
    {
        if(may_be_unknown && rng.chance(10)) {
            json = "{\"d\":[],\"v\":[]}";
            return;
        }
        Random<D> d(rng, false);
        Random<V> v(rng, false);
        type = ExpressionType(d.set, v.set);
        json = "{\"d\":" + d.names + ",\"v\":" + v.names + "}";
    }
};

std::string seen(ExpressionType const& type)
{
    return "{\"d\":" + seen<D>(type.data_type()) + ",\"v\":" +
        seen<V>(type.value_type()) + "}";
}

void expression_type(Rng& rng)
{
    Json j;
    Type a(rng, true), b(rng, true);
    if(rng.chance(25)) { b = a; }
    else if(rng.chance(40) && a.type.defined()) {
        // One that may satisfy the other.
        unsigned in_v = 0, in_d = 0;
        for(size_t k = 0; k < V::names().size(); ++k) {
            in_v |= unsigned(a.type.value_type().test(V::flags()[k])) << k;
        }
        for(size_t k = 0; k < D::names().size(); ++k) {
            in_d |= unsigned(a.type.data_type().test(D::flags()[k])) << k;
        }
        Random<D> d(rng, false, in_d);
        Random<V> v(rng, false, in_v);
        b.type = ExpressionType(d.set, v.set);
        b.json = "{\"d\":" + d.names + ",\"v\":" + v.names + "}";
        if(rng.chance(20)) { std::swap(a, b); }
    }
    j.s("op", "type").raw("a", a.json).raw("b", b.json);
    ev::begin(j);
    j.raw("seen", seen(a.type)).b("defined", a.type.defined())
        .b("fixed", a.type.fixed()).b("eq", a.type == b.type)
        .b("ne", a.type != b.type)
        .b("satisfied", a.type.is_satisfied_by(b.type))
        .s("text", text(a.type));
    ev::end(j);
}

void expression_types(Rng& rng)
{
    using Types = language::ExpressionTypes;
    Json j;
    std::vector<std::string> in[2], out[2];
    Types types[2];
    for(int s = 0; s < 2; ++s) {
        int const n = rng.range(0, 4);
        for(int k = 0; k < n; ++k) {
            Type t(rng, true);
            in[s].push_back(t.json);
            types[s].add(t.type);
        }
    }
    if(rng.chance(30) && !in[0].empty()) {
        // One that is satisfied.
        int const k = rng.range(0, in[0].size() - 1);
        in[1].push_back(in[0][k]);
        types[1].add(types[0][k]);
    }
    j.s("op", "types").raws("a", in[0]).raws("b", in[1]);
    ev::begin(j);
    Types const copy(types[0]);
    for(auto const& t: copy) { out[0].push_back(seen(t)); }
    for(size_t k = 0; k < types[1].size(); ++k) {
        out[1].push_back(seen(types[1][k]));
    }
    j.raws("seen1", out[0]).raws("seen2", out[1]).i("size", copy.size())
        .b("empty", copy.is_empty()).b("fixed", copy.fixed())
        .b("satisfied", copy.is_satisfied_by(types[1]))
        .i("id", copy.id_of_satisfying_type(types[1]))
        .s("text", text(copy));
    ev::end(j);
}

struct Standard: language::Operation
{
    using language::Operation::Operation;
    ExpressionType expression_type(size_t index,
        std::vector<ExpressionType> const& types) const override
    {
        return language::standard_expression_type(*this, index, types);
    }
    std::vector<std::shared_ptr<language::Argument>> execute(
        std::vector<std::shared_ptr<language::Argument>> const&) const override
    {
        return {};
    }
};

// Numbers, in V.
unsigned const numbers = 0xffc;

void result_type(Rng& rng)
{
    Json j;
    int const n = rng.range(1, 4);
    bool const only_number = rng.chance(80);
    int const single = rng.pick<int>({0, 1, 12});
    std::vector<language::Parameter> parameters;
    std::vector<ExpressionType> arguments;
    std::vector<std::string> in, out;
    unsigned all_v = 0, all_d = 0;
    for(int k = 0; k < n; ++k) {
        unsigned const within = only_number ? numbers : 1u << single;
        Random<D> d(rng, false);
        Random<V> v(rng, false, within);
        if(rng.chance(60)) {
            d.set = DataTypes::ALL; d.mask = 3;
            d.names = "[\"Constant\",\"StaticField\"]";
        }
        if(only_number && rng.chance(50)) {
            v = Random<V>(rng, false, numbers);
            for(size_t f = 0; f < V::names().size(); ++f) {
                if(numbers >> f & 1) {
                    v.set |= V::sets()[f]; v.mask |= 1u << f;
                }
            }
            v.names = seen<V>(v.set);
        }
        all_v |= v.mask; all_d |= d.mask;
        parameters.emplace_back("p", "a parameter", d.set, v.set);
        in.push_back("{\"d\":" + d.names + ",\"v\":" + v.names + "}");
        if(rng.chance(12)) {
            arguments.emplace_back();
            out.push_back("{\"d\":[],\"v\":[]}");
        }
        else {
            // With a single parameter: something it accepts.
            Random<D> ad(rng, false, n == 1 ? d.mask : ~0u);
            Random<V> av(rng, false, n == 1 ? v.mask :
                only_number ? numbers : v.mask);
            arguments.emplace_back(ad.set, av.set);
            out.push_back("{\"d\":" + ad.names + ",\"v\":" + av.names + "}");
        }
    }
    // Results: of a fixed type, or one that the arguments determine.
    std::vector<language::Result> results;
    std::vector<std::string> of;
    int const m = rng.range(1, 2);
    for(int k = 0; k < m; ++k) {
        Random<D> d(rng, false);
        Random<V> v(rng, false);
        if(!d.set.fixed() || rng.chance(60)) {
            d.set = DataTypes::ALL;
            d.names = "[\"Constant\",\"StaticField\"]";
        }
        if(!v.set.fixed() || rng.chance(70)) {
            v.set = ValueTypes::ALL;
            v.names = seen<V>(v.set);
        }
        results.emplace_back("r", "a result", ExpressionType(d.set, v.set));
        of.push_back("{\"d\":" + d.names + ",\"v\":" + v.names + "}");
    }
    j.s("op", "result").raws("parameters", in).raws("arguments", out)
        .raws("results", of);
    ev::begin(j);
    Standard const operation("op", "an operation", parameters, results);
    Standard copy("other", "another", {}, {});
    copy = operation;
    std::vector<std::string> types, types2;
    for(int k = 0; k < m; ++k) {
        types.push_back(seen(operation.expression_type(k, arguments)));
        types2.push_back(seen(copy.expression_type(k, arguments)));
    }
    j.raws("types", types).raws("copy", types2).i("arity", operation.arity())
        .s("name", copy.name());
    ev::end(j);
}

// Operations, by name. In a list, a later one replaces an earlier one.
void operations(Rng& rng)
{
    Json j;
    std::vector<std::string> all = {"a", "b", "ab", "A", "abs"}, given;
    std::vector<language::OperationPtr> made;
    // Names in a collection are unique; in a list they need not be.
    bool const list = rng.chance(40);
    int const n = list ? 3 : rng.range(0, all.size());
    std::vector<std::string> rest(all);
    for(int k = 0; k < n; ++k) {
        size_t const pos = rng.range(0, rest.size() - 1);
        std::string const name = rest[pos];
        if(!list) { rest.erase(rest.begin() + pos); }
        made.push_back(std::make_shared<Standard>(name,
            std::to_string(k + 1), std::vector<language::Parameter>(),
            std::vector<language::Result>()));
        given.push_back(quoted(name));
    }
    j.s("op", "operations").raws("given", given);
    ev::begin(j);
    auto const collected = list ?
        std::make_shared<language::Operations>(std::initializer_list<
            language::OperationPtr>{made[0], made[1], made[2]}) :
        std::make_shared<language::Operations>(made);
    auto const& operations = *collected;
    std::vector<std::string> found;
    for(auto const& name: all) {
        Json f;
        bool const has = operations.has_operation(name);
        f.s("name", name).b("has", has).i("x", has ?
            std::stoi(operations.operation(name)->description()) : 0);
        found.push_back(f.text + "}");
    }
    j.i("size", operations.size()).b("empty", operations.empty())
        .raws("found", found);
    ev::end(j);
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {flags<V>, flags<D>, names, expression_type,
        expression_types, expression_types, result_type, result_type,
        result_type, operations, flags<V>};
    return ev::main(argc, argv);
}
