// Features, attributes, domains and values.
#include <cassert>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "fern/core/type_traits.h"
#include "fern/core/data_type_traits.h"
#include "fern/core/value_type_traits.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/visitor/attribute_type_visitor.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/feature_argument.h"
#include "events.h"

namespace {

using namespace ev;
using namespace fern;
namespace fl = fern::language;

template<typename T> struct Type {};
#define TYPE(T, n)                                                             \
template<> struct Type<T> { static char const* name() { return n; } };
TYPE(bool, "bool")
TYPE(int8_t, "int8")
TYPE(int16_t, "int16")
TYPE(int32_t, "int32")
TYPE(int64_t, "int64")
TYPE(uint8_t, "uint8")
TYPE(uint16_t, "uint16")
TYPE(uint32_t, "uint32")
TYPE(uint64_t, "uint64")
TYPE(float, "float32")
TYPE(double, "float64")
TYPE(std::string, "string")
#undef TYPE

char const* vt_name(ValueType t)
{
    switch(t) {
        case VT_BOOL: return "bool";
        case VT_CHAR: return "char";
        case VT_UINT8: return "uint8";
        case VT_INT8: return "int8";
        case VT_UINT16: return "uint16";
        case VT_INT16: return "int16";
        case VT_UINT32: return "uint32";
        case VT_INT32: return "int32";
        case VT_UINT64: return "uint64";
        case VT_INT64: return "int64";
        case VT_FLOAT32: return "float32";
        case VT_FLOAT64: return "float64";
        case VT_STRING: return "string";
        default: return "?";
    }
}

char const* dt_name(DataType t)
{
    return t == DT_CONSTANT ? "constant" : t == DT_STATIC_FIELD ? "field" : "?";
}

// A small number as a value of a type, and back.
template<typename T> T made(int k) { return static_cast<T>(k); }
template<> bool made<bool>(int k) { return k % 2; }
template<> std::string made<std::string>(int k)
{
    return k == 0 ? "" : "s" + std::to_string(k);
}

template<typename T> std::string text(T const& v)
{
    return std::to_string(static_cast<long>(v));
}
template<> std::string text<bool>(bool const& v) { return v ? "true" : "false"; }
template<> std::string text<std::string>(std::string const& v) { return v; }

std::string list(std::vector<int> const& v)
{
    std::string t = "[";
    for(int k: v) t += (t.size() > 1 ? "," : "") + std::to_string(k);
    return t + "]";
}

// -----------------------------------------------------------------------------
// Attributes, whatever their type.

struct Handle
{
    std::string kind, type;
    std::shared_ptr<fl::Attribute> attribute;
    virtual ~Handle()=default;
    virtual void set(int) {}
    virtual std::string text_of(int) const { return ""; }
    virtual std::string get() { return ""; }
    virtual int put(std::vector<int> const&, int) { return -1; }
    virtual std::string state() { return ""; }
    virtual std::string geometry(int) { return "[]"; }
    virtual size_t nr_coordinates() const { return 0; }
};

template<typename T>
struct Constant: Handle
{
    std::shared_ptr<fl::ConstantAttribute<T>> a;
    explicit Constant(int k)
    {
        kind = "constant";
        type = Type<T>::name();
        if(k < 0) a = std::make_shared<fl::ConstantAttribute<T>>();
        else a = std::make_shared<fl::ConstantAttribute<T>>(made<T>(k));
        attribute = a;
    }
    void set(int k) override { a->set(made<T>(k)); }
    std::string text_of(int k) const override { return text(made<T>(k)); }
    std::string get() override { return text(a->values().value()); }
};

template<typename P> struct Geometry {};

template<typename C, size_t n>
struct Geometry<Point<C, n>>
{
    using P = Point<C, n>;
    static size_t const size = n;
    template<size_t k>
    static void set(P& p, int const* c)
    {
        boost::geometry::set<k>(p, static_cast<C>(c[k]));
    }
    static P make(int const* c)
    {
        P p;
        set<0>(p, c);
        set<1>(p, c);
        if constexpr(n == 3) set<2>(p, c);
        return p;
    }
    static void add(std::vector<int>& to, P const& p)
    {
        to.push_back(static_cast<int>(boost::geometry::get<0>(p)));
        to.push_back(static_cast<int>(boost::geometry::get<1>(p)));
        if constexpr(n == 3) {
            to.push_back(static_cast<int>(boost::geometry::get<2>(p)));
        }
    }
};

template<typename P>
struct Geometry<fl::Box<P>>
{
    using B = fl::Box<P>;
    static size_t const size = 2 * Geometry<P>::size;
    static B make(int const* c)
    {
        return B(Geometry<P>::make(c),
            Geometry<P>::make(c + Geometry<P>::size));
    }
    static void add(std::vector<int>& to, B const& b)
    {
        Geometry<P>::add(to, b.min_corner());
        Geometry<P>::add(to, b.max_corner());
    }
};

// How values of attributes are made and shown.
template<typename V> struct Values
{
    V make(int k) { return made<V>(k); }
    std::string show(V const& v) const { return text(v); }
    std::string expected(int k) const { return text(made<V>(k)); }
    static char const* type() { return Type<V>::name(); }
};
template<typename T> struct Values<fl::FieldValuePtr<T>>
{
    std::map<int, fl::FieldValuePtr<T>> made_;
    fl::FieldValuePtr<T> make(int k)
    {
        if(!made_[k]) {
            made_[k] = std::make_shared<fl::FieldValue<T>>(extents[2][1]);
        }
        return made_[k];
    }
    std::string show(fl::FieldValuePtr<T> const& v) const
    {
        for(auto const& p: made_) if(p.second == v) return expected(p.first);
        return "?";
    }
    std::string expected(int k) const { return "p" + std::to_string(k); }
    static char const* type() { return Type<T>::name(); }
};

template<typename Domain, typename V>
struct Spatial: Handle
{
    using G = Geometry<typename Domain::Geometry>;
    std::shared_ptr<fl::SpatialAttribute<Domain, V>> a;
    Values<V> values;
    explicit Spatial(char const* k)
    {
        kind = k;
        type = Values<V>::type();
        a = std::make_shared<fl::SpatialAttribute<Domain, V>>();
        attribute = a;
    }
    std::string text_of(int k) const override { return values.expected(k); }
    int put(std::vector<int> const& c, int k) override
    {
        return static_cast<int>(a->add(G::make(c.data()), values.make(k)));
    }
    size_t nr_coordinates() const override { return G::size; }
    std::string state() override
    {
        std::vector<std::string> all, texts;
        Domain const& domain = a->domain();
        std::vector<int> ids, ids2;
        for(auto const& p: domain) {
            ids.push_back(static_cast<int>(p.first));
            std::vector<int> c;
            G::add(c, p.second);
            all.push_back(list(c));
            texts.push_back(values.show(a->values().value(p.first)));
        }
        auto it = a->values().cbegin();
        for(size_t k = 0; k < a->values().size(); ++k, ++it) {
            ids2.push_back(static_cast<int>(it->first));
        }
        Json j;
        j.i("size", a->size()).b("empty", a->empty()).is("ids", ids)
            .i("dsize", domain.size()).b("dempty", domain.empty())
            .i("vsize", a->values().size()).b("vempty", a->values().empty())
            .is("vids", ids2).raws("geometries", all)
            .raw("values", str_list(texts));
        return j.text + "}";
    }
};

using Points2 = fl::SpatialDomain<Point<double, 2>>;
using Points3 = fl::SpatialDomain<Point<int, 3>>;

template<typename T>
std::shared_ptr<Handle> attribute_of(Rng& rng, int k)
{
    switch(rng.range(0, 5)) {
        case 0: case 1: case 2: return std::make_shared<Constant<T>>(k);
        case 3: return std::make_shared<Spatial<fl::FieldDomain,
            fl::FieldValuePtr<T>>>("field");
        case 4: return std::make_shared<Spatial<Points2, T>>("points");
        default: return std::make_shared<Spatial<Points3, T>>("points");
    }
}

std::shared_ptr<Handle> an_attribute(Rng& rng, int k)
{
    switch(rng.range(0, 11)) {
        case 0: return attribute_of<bool>(rng, k);
        case 1: return attribute_of<int8_t>(rng, k);
        case 2: return attribute_of<int16_t>(rng, k);
        case 3: return attribute_of<int32_t>(rng, k);
        case 4: return attribute_of<int64_t>(rng, k);
        case 5: return attribute_of<uint8_t>(rng, k);
        case 6: return attribute_of<uint16_t>(rng, k);
        case 7: return attribute_of<uint32_t>(rng, k);
        case 8: return attribute_of<uint64_t>(rng, k);
        case 9: return attribute_of<float>(rng, k);
        case 10: return attribute_of<double>(rng, k);
        default: return attribute_of<std::string>(rng, k);
    }
}

// -----------------------------------------------------------------------------
// Programs over features.

std::vector<std::string> const names{"a", "b", "ab", "c d"};

struct Mirror      // Which features there are, to know what can be asked.
{
    std::map<std::string, int> features, attributes;
};

int found(std::vector<Mirror> const& m, int on,
    std::vector<std::string> const& path)
{
    for(auto const& n: path) {
        auto it = m[on].features.find(n);
        if(it == m[on].features.end()) return -1;
        on = it->second;
    }
    return on;
}

std::string spelled(Rng& rng, std::vector<std::string> const& path)
{
    std::string t = rng.chance(30) ? "/" : "";
    for(size_t k = 0; k < path.size(); ++k) {
        if(k > 0) t += rng.chance(5) ? "//" : "/";
        t += path[k];
    }
    return t;
}

struct Step
{
    std::string op;
    int on, arg;
    std::vector<std::string> path;
    std::string spelling;
};

void features(Rng& rng)
{
    int const nr_features = 4, nr_attributes = 3;
    std::vector<Mirror> m(nr_features);
    std::vector<Step> steps;
    int const n = static_cast<int>(rng.range(4, 24));
    for(int k = 0; k < n; ++k) {
        Step s;
        s.on = rng.chance(60) ? 0 : static_cast<int>(
            rng.range(0, nr_features - 1));
        int const size = static_cast<int>(rng.range(rng.chance(5) ? 0 : 1, 3));
        // Half of the time what is there is followed.
        int at = s.on;
        for(int p = 0; p < size; ++p) {
            std::string name = rng.pick(names);
            if(at >= 0 && p + 1 < size && !m[at].features.empty()
                && rng.chance(60)) {
                auto it = m[at].features.begin();
                std::advance(it, rng.range(0, m[at].features.size() - 1));
                name = it->first;
            }
            s.path.push_back(name);
            if(at >= 0) at = found(m, at, {name});
        }
        std::vector<std::string> parent = s.path;
        std::string last;
        if(!parent.empty()) { last = parent.back(); parent.pop_back(); }
        int const p = s.path.empty() ? -1 : found(m, s.on, parent);
        bool const taken = p < 0 || m[p].features.count(last)
            || m[p].attributes.count(last);
        s.op = rng.pick<std::string>({"addf", "addf", "addf", "adda", "adda",
            "hasf", "hasa", "feature", "attribute", "nrf", "nra", "all"});
        s.arg = 0;
        if(s.op == "addf") {
            if(taken) s.op = "hasf";
            else {
                s.arg = static_cast<int>(rng.range(0, nr_features - 1));
                m[p].features[last] = s.arg;
            }
        }
        else if(s.op == "adda") {
            if(taken) s.op = "hasa";
            else {
                s.arg = static_cast<int>(rng.range(0, nr_attributes - 1));
                m[p].attributes[last] = s.arg;
            }
        }
        else if(s.op == "attribute") {
            if(p < 0 || !m[p].attributes.count(last)) s.op = "hasa";
        }
        else if(s.op == "nrf" || s.op == "nra") {
            if(s.path.empty() || found(m, s.on, s.path) < 0) s.op = "all";
        }
        if(s.op == "all") s.path.clear();
        s.spelling = spelled(rng, s.path);
        steps.push_back(s);
    }
    std::vector<std::string> described;
    for(auto const& s: steps) {
        Json d;
        d.s("op", s.op).i("on", s.on + 1).raw("path", str_list(s.path))
            .s("spelling", s.spelling).i("arg", s.arg + 1);
        described.push_back(d.text + "}");
    }
    Json j;
    j.s("op", "features").raws("steps", described);
    ev::begin(j);
    std::vector<std::shared_ptr<fl::Feature>> fs;
    std::vector<std::shared_ptr<fl::Attribute>> as;
    for(int k = 0; k < nr_features; ++k) {
        fs.push_back(std::make_shared<fl::Feature>());
    }
    for(int k = 0; k < nr_attributes; ++k) {
        as.push_back(an_attribute(rng, 1)->attribute);
    }
    std::vector<std::string> results;
    for(auto const& s: steps) {
        fl::Feature& f = *fs[s.on];
        fl::Feature const& c = f;
        Path const path(s.spelling);
        int r = 0;
        std::vector<std::string> fn, an;
        if(s.op == "addf") f.add_feature(path, fs[s.arg]);
        else if(s.op == "adda") f.add_attribute(path, as[s.arg]);
        else if(s.op == "hasf") r = c.contains_feature(path);
        else if(s.op == "hasa") r = c.contains_attribute(path);
        else if(s.op == "feature") {
            auto const found = c.feature(path);
            for(int k = 0; k < nr_features; ++k) if(fs[k] == found) r = k + 1;
            if(found && r == 0) r = -1;
            fl::FeatureArgument const argument(found);
            if(argument.feature() != found || argument.argument_type()
                != fl::ArgumentType::AT_FEATURE) r = -2;
        }
        else if(s.op == "attribute") {
            auto const found = c.attribute(path);
            for(int k = 0; k < nr_attributes; ++k) if(as[k] == found) r = k + 1;
        }
        else if(s.op == "nrf") r = static_cast<int>(c.nr_features(path));
        else if(s.op == "nra") r = static_cast<int>(c.nr_attributes(path));
        else {
            fn = c.feature_names();
            an = c.attribute_names();
            r = static_cast<int>(c.nr_features() * 100 + c.nr_attributes());
        }
        Json o;
        o.i("r", r).raw("fn", str_list(fn)).raw("an", str_list(an));
        results.push_back(o.text + "}");
    }
    j.raws("results", results);
    ev::end(j);
    // Features that contain themselves would not end otherwise: leaked.
}

// -----------------------------------------------------------------------------
// Programs over attributes.

void attributes(Rng& rng)
{
    int const nr = static_cast<int>(rng.range(1, 3));
    std::vector<int> const firsts{static_cast<int>(rng.range(-1, 100)),
        static_cast<int>(rng.range(0, 100)), static_cast<int>(rng.range(-1, 3))};
    std::vector<std::shared_ptr<Handle>> as;
    std::vector<bool> has(nr);
    for(int k = 0; k < nr; ++k) {
        as.push_back(an_attribute(rng, firsts[k]));
        has[k] = firsts[k] >= 0;
    }
    std::vector<std::string> given;
    for(int k = 0; k < nr; ++k) {
        Json d;
        d.s("kind", as[k]->kind).s("type", as[k]->type)
            .s("value", has[k] ? as[k]->text_of(firsts[k]) : "unset");
        given.push_back(d.text + "}");
    }
    struct Step { std::string op; int on; std::vector<int> at; int value; };
    std::vector<Step> steps;
    std::vector<std::string> described;
    int const n = static_cast<int>(rng.range(2, 16));
    for(int k = 0; k < n; ++k) {
        Step s;
        s.on = static_cast<int>(rng.range(0, nr - 1));
        Handle& a = *as[s.on];
        s.value = static_cast<int>(rng.range(0, 100));
        if(a.kind == "constant") {
            s.op = rng.pick<std::string>({"set", "get", "type"});
            if(s.op == "get" && !has[s.on]) s.op = "set";
            if(s.op == "set") has[s.on] = true;
        }
        else {
            s.op = rng.pick<std::string>({"put", "put", "state",
                a.kind == "field" ? "type" : "put"});
            for(size_t c = 0; c < a.nr_coordinates(); ++c) {
                s.at.push_back(static_cast<int>(rng.range(-3, 3)));
            }
        }
        steps.push_back(s);
        Json d;
        d.s("op", s.op).i("on", s.on + 1).is("at", s.at)
            .s("value", a.text_of(s.value));
        described.push_back(d.text + "}");
    }
    Json j;
    j.s("op", "attributes").raws("given", given).raws("steps", described);
    ev::begin(j);
    fl::AttributeTypeVisitor visitor;
    std::vector<std::string> results;
    for(auto const& s: steps) {
        Handle& a = *as[s.on];
        Json o;
        std::string state = "{}", t, u;
        int gid = -1;
        bool same = true;
        if(s.op == "set") a.set(s.value);
        else if(s.op == "get") t = a.get();
        else if(s.op == "put") gid = a.put(s.at, s.value);
        else if(s.op == "state") state = a.state();
        else {
            a.attribute->Accept(visitor);
            t = dt_name(visitor.data_type());
            u = vt_name(visitor.value_type());
            fl::AttributeArgument const argument(a.attribute);
            std::stringstream stream;
            stream << argument.argument_type();
            same = argument.attribute() == a.attribute
                && argument.data_type() == visitor.data_type()
                && argument.value_type() == visitor.value_type()
                && stream.str() == "AT_ATTRIBUTE";
        }
        o.s("t", t).s("u", u).i("gid", gid).b("same", same).raw("state", state);
        results.push_back(o.text + "}");
    }
    j.raws("results", results);
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Values.

template<typename T, typename A>
std::string values_of(A& a, std::vector<int> const& cells)
{
    for(size_t k = 0; k < cells.size(); ++k) {
        a.data()[k] = made<T>(cells[k]);
    }
    std::vector<std::string> shown;
    for(size_t k = 0; k < a.num_elements(); ++k) {
        shown.push_back(text<T>(a.data()[k]));
    }
    std::vector<int> const shape(a.shape(), a.shape() + a.num_dimensions());
    Json o;
    o.is("shape", shape).i("n", a.num_elements()).raw("shown", str_list(shown));
    return o.text;
}

template<typename A>
std::string masked(A& a, std::vector<int> const& marks)
{
    bool none = !a.has_masked_values();
    for(size_t k = 0; k < a.mask().num_elements(); ++k) {
        none = none && !a.mask().data()[k];
    }
    std::vector<int> shape(a.mask().shape(),
        a.mask().shape() + a.num_dimensions());
    for(int k: marks) a.mask().data()[k] = true;
    Json o;
    o.b("none", none).is("mshape", shape).b("some", a.has_masked_values());
    return o.text;
}

template<typename T>
void values_as(Rng& rng)
{
    int const d = static_cast<int>(rng.range(1, 3));
    std::vector<int> shape;
    int n = 1;
    for(int k = 0; k < d; ++k) {
        shape.push_back(static_cast<int>(rng.range(rng.chance(10) ? 0 : 1, 4)));
        n *= shape.back();
    }
    bool const none = rng.chance(5);    // Default constructed.
    if(none) { shape.assign(d, 0); n = 0; }
    std::vector<int> cells, marks;
    std::vector<std::string> texts;
    for(int k = 0; k < n; ++k) {
        cells.push_back(static_cast<int>(rng.range(0, 100)));
        texts.push_back(text(made<T>(cells.back())));
        if(rng.chance(20)) marks.push_back(k);
    }
    Json j;
    j.s("op", "values").s("type", Type<T>::name()).is("shape", shape)
        .raw("cells", str_list(texts)).is("marks", marks);
    ev::begin(j);
    std::string array, marray, mask;
#define RUN(D, E) {                                                            \
        fl::d##D::ArrayValue<T> a1{E};                                         \
        fl::d##D::MaskedArrayValue<T> a2{E};                                   \
        array = values_of<T>(a1, cells);                                          \
        mask = masked(a2, marks);                                              \
        marray = values_of<T>(a2, cells);                                         \
    }
    if(d == 1) { if(none) RUN(1, ) else RUN(1, extents[shape[0]]) }
    else if(d == 2) {
        if(none) RUN(2, ) else RUN(2, extents[shape[0]][shape[1]])
    }
    else if(none) RUN(3, )
    else RUN(3, extents[shape[0]][shape[1]][shape[2]])
#undef RUN
    j.raw("array", array + "}").raw("marray", marray + "}")
        .raw("mask", mask + "}");
    ev::end(j);
}

void values(Rng& rng)
{
    switch(rng.range(0, 3)) {
        case 0: values_as<uint8_t>(rng); break;
        case 1: values_as<int64_t>(rng); break;
        case 2: values_as<double>(rng); break;
        default: values_as<std::string>(rng);
    }
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {features, attributes, features, values};
    return ev::main(argc, argv);
}
