// Rasters as the Python bindings handle them: made from lists, used in
// operations together with numbers and with rasters of other types, written
// to files and read from them.
#include <boost/python.hpp>
#include <cassert>
#include <cmath>
#include <filesystem>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <gdal_priv.h>
#include "fern/core/type_traits.h"
#include "fern/python/feature/masked_raster.h"
#include "fern/python/algorithm/algebra/elementary/add.h"
#include "fern/python/algorithm/algebra/elementary/greater.h"
#include "fern/python/algorithm/algebra/elementary/less.h"
#include "fern/python/algorithm/algebra/elementary/multiply.h"
#include "fern/python/algorithm/core/if.h"
#include "fern/python/algorithm/execution_policy.h"
#include "fern/python/algorithm/space/focal/slope.h"
#include "fern/python/io/gdal.h"
#include "events.h"

namespace fa = fern::algorithm;
namespace fp = fern::python;
namespace bp = boost::python;
using fern::ValueType;
using Handle = fp::MaskedRasterHandle;

namespace {

// -----------------------------------------------------------------------------
// Numbers: a whole number of quarters (or sixteenths), as digits.

std::string digits(__int128 x)
{
    if(x == 0) { return "[0]"; }
    std::string text = x < 0 ? "[-1" : "[1";
    unsigned __int128 m = x < 0 ? -static_cast<unsigned __int128>(x) :
        static_cast<unsigned __int128>(x);
    for(; m != 0; m /= 4096) {
        text += "," + std::to_string(static_cast<int>(m % 4096));
    }
    return text + "]";
}

std::string const not_exact("[1,9999]");

template<typename T>
std::string in_units(T value, int unit)
{
    if constexpr(std::is_integral<T>::value) {
        return digits(static_cast<__int128>(value) * unit);
    }
    else {
        double const x = static_cast<double>(value) * unit;
        if(!std::isfinite(x) || std::fabs(x) > 1e30 || std::floor(x) != x) {
            return not_exact;
        }
        return digits(static_cast<__int128>(x));
    }
}

// -----------------------------------------------------------------------------
// Types.

template<typename T> struct Name;
template<> struct Name<int8_t> { static char const* of() { return "i8"; } };
template<> struct Name<uint8_t> { static char const* of() { return "u8"; } };
template<> struct Name<int16_t> { static char const* of() { return "i16"; } };
template<> struct Name<uint16_t> { static char const* of() { return "u16"; } };
template<> struct Name<int32_t> { static char const* of() { return "i32"; } };
template<> struct Name<uint32_t> { static char const* of() { return "u32"; } };
template<> struct Name<int64_t> { static char const* of() { return "i64"; } };
template<> struct Name<uint64_t> { static char const* of() { return "u64"; } };
template<> struct Name<float> { static char const* of() { return "f32"; } };
template<> struct Name<double> { static char const* of() { return "f64"; } };

// Calls visit with a value of the type.
template<typename Visit>
void with_type(ValueType type, Visit const& visit)
{
    switch(type) {
        case fern::VT_INT8: visit(int8_t()); break;
        case fern::VT_UINT8: visit(uint8_t()); break;
        case fern::VT_INT16: visit(int16_t()); break;
        case fern::VT_UINT16: visit(uint16_t()); break;
        case fern::VT_INT32: visit(int32_t()); break;
        case fern::VT_UINT32: visit(uint32_t()); break;
        case fern::VT_INT64: visit(int64_t()); break;
        case fern::VT_UINT64: visit(uint64_t()); break;
        case fern::VT_FLOAT32: visit(float()); break;
        case fern::VT_FLOAT64: visit(double()); break;
        default: throw std::logic_error("type");
    }
}

std::vector<ValueType> const usual{fern::VT_UINT8, fern::VT_UINT32,
    fern::VT_INT32, fern::VT_UINT64, fern::VT_INT64, fern::VT_FLOAT32,
    fern::VT_FLOAT64};
std::vector<ValueType> const in_files{fern::VT_UINT8, fern::VT_UINT16,
    fern::VT_INT16, fern::VT_UINT32, fern::VT_INT32, fern::VT_FLOAT32,
    fern::VT_FLOAT64};
std::vector<ValueType> const unusual{fern::VT_UINT16, fern::VT_INT16,
    fern::VT_INT8};

bool is_float(ValueType type)
{ return type == fern::VT_FLOAT32 || type == fern::VT_FLOAT64; }
bool is_unsigned(ValueType type)
{
    return type == fern::VT_UINT8 || type == fern::VT_UINT16 ||
        type == fern::VT_UINT32 || type == fern::VT_UINT64;
}

// -----------------------------------------------------------------------------
// What a raster looks like.

template<typename T>
std::string shown(Handle const& handle, T, int unit, bool thousandths)
{
    auto const& raster = handle->raster<T>();
    ev::Json json;
    json.s("k", Name<T>::of());
    size_t const rows = std::get<0>(raster.sizes());
    size_t const cols = std::get<1>(raster.sizes());
    json.i("rows", rows).i("cols", cols);
    // The raster and the object that Python sees agree.
    bp::tuple sizes = handle->sizes(), origin = handle->origin(),
        cell_sizes = handle->cell_sizes();
    json.b("agree", bp::extract<size_t>(sizes[0])() == rows &&
        bp::extract<size_t>(sizes[1])() == cols &&
        bp::extract<double>(origin[0])() == std::get<0>(raster.origin()) &&
        bp::extract<double>(origin[1])() == std::get<1>(raster.origin()) &&
        bp::extract<double>(cell_sizes[0])() ==
            std::get<0>(raster.cell_sizes()) &&
        bp::extract<double>(cell_sizes[1])() ==
            std::get<1>(raster.cell_sizes()));
    auto quarters = [](double x) {
        double const y = 4 * x;
        return std::floor(y) == y && std::fabs(y) < 1e8 ?
            static_cast<int64_t>(y) : int64_t(999999999);
    };
    json.is("at", std::vector<int64_t>{quarters(std::get<0>(raster.origin())),
        quarters(std::get<1>(raster.origin()))});
    json.is("cell", std::vector<int64_t>{
        quarters(std::get<0>(raster.cell_sizes())),
        quarters(std::get<1>(raster.cell_sizes()))});
    std::vector<std::string> values;
    std::vector<bool> none;
    std::vector<int64_t> rounded;
    for(size_t i = 0; i < rows * cols; ++i) {
        T const value = raster.element(i / cols, i % cols);
        none.push_back(fern::is_no_data(value));
        values.push_back(none.back() ? "[0]" : in_units(value, unit));
        double const x = static_cast<double>(value) * (thousandths ? 1000 : 4);
        rounded.push_back(none.back() || !(std::fabs(x) < 1e9) ? 0 :
            static_cast<int64_t>(std::floor(x)));
    }
    if(!thousandths) { json.raws("v", values); }
    if(thousandths || unit == 1) { json.is("w", rounded); }
    json.bs("n", none);
    return json.text + "}";
}

// thousandths: values are not exact.
std::string shown(Handle const& handle, int unit=4, bool thousandths=false)
{
    if(!handle) { return "{\"k\":\"none\"}"; }
    std::string result;
    with_type(handle->value_type(), [&](auto type) {
        try { result = shown(handle, type, unit, thousandths); }
        catch(boost::bad_any_cast const&) { result = "{\"k\":\"other\"}"; } });
    return result;
}

// -----------------------------------------------------------------------------
// Rasters.

struct Geo
{
    size_t rows, cols;
    double x, y, width, height;
};

Geo some_geo(ev::Rng& rng)
{
    Geo g;
    g.rows = rng.range(1, 4);
    g.cols = rng.range(1, 4);
    g.x = rng.range(-40, 40) / 4.0;
    g.y = rng.range(-40, 40) / 4.0;
    g.width = rng.range(1, 12) / 4.0;
    g.height = rng.range(1, 12) / 4.0;
    if(rng.chance(50)) { g.height = -g.height; }
    return g;
}

// Elsewhere; of the same size, most often.
Geo another(ev::Rng& rng, Geo const& g)
{
    Geo result = some_geo(rng);
    if(rng.chance(95)) {
        result.rows = g.rows;
        result.cols = g.cols;
    }
    return result;
}

// How large values may be: small ones are exact in any type.
enum class Range { Small, Signless, Whole };

template<typename T>
T some_value(ev::Rng& rng, Range range)
{
    if constexpr(std::is_floating_point<T>::value) {
        return static_cast<T>(
            rng.range(range == Range::Signless ? 0 : -60, 60) / 4.0);
    }
    else {
        bool const sign = std::is_signed<T>::value &&
            range != Range::Signless;
        if(range == Range::Whole && rng.chance(40)) {
            auto const most = std::numeric_limits<T>::max();
            auto const least = std::numeric_limits<T>::min();
            switch(rng.range(0, 3)) {
                case 0: return static_cast<T>(most - 1 - rng.range(0, 3));
                case 1: return static_cast<T>(least + 1 + rng.range(0, 3));
                case 2: return static_cast<T>(most / 2 + rng.range(-2, 2));
                default: return static_cast<T>(
                    std::sqrt(static_cast<double>(most)) + rng.range(-1, 2));
            }
        }
        return static_cast<T>(rng.range(sign ? -20 : 0, 20));
    }
}

template<typename T>
bp::object object(T value) { return bp::object(value); }
bp::object object(uint8_t value) { return bp::object(int(value)); }
bp::object object(int8_t value) { return bp::object(int(value)); }

// Given as lists, or directly.
template<typename T>
Handle make(ev::Rng& rng, Geo const& g, Range range, int none, bool lists,
    T)
{
    std::vector<T> values;
    std::vector<bool> mask;
    for(size_t i = 0; i < g.rows * g.cols; ++i) {
        values.push_back(some_value<T>(rng, range));
        mask.push_back(rng.chance(none));
    }
    if(lists) {
        bp::list rows, mask_rows;
        for(size_t r = 0; r < g.rows; ++r) {
            bp::list row, mask_row;
            for(size_t c = 0; c < g.cols; ++c) {
                row.append(object(values[r * g.cols + c]));
                mask_row.append(bool(mask[r * g.cols + c]));
            }
            rows.append(row);
            mask_rows.append(mask_row);
        }
        bp::tuple origin = bp::make_tuple(g.x, g.y);
        bp::tuple cell_sizes = bp::make_tuple(g.width, g.height);
        return std::make_shared<fp::MaskedRaster>(rows, mask_rows, origin,
            cell_sizes, fern::TypeTraits<T>::value_type);
    }
    auto raster = std::make_shared<fp::detail::MaskedRaster<T>>(
        std::make_tuple(g.rows, g.cols), std::make_tuple(g.x, g.y),
        std::make_tuple(g.width, g.height));
    for(size_t i = 0; i < values.size(); ++i) {
        if(mask[i]) { fern::set_no_data(raster->element(i)); }
        else { raster->element(i) = values[i]; }
    }
    return std::make_shared<fp::MaskedRaster>(raster);
}

Handle some_raster(ev::Rng& rng, Geo const& g, ValueType type,
    Range range=Range::Whole, int none=20)
{
    Handle result;
    with_type(type, [&](auto x) {
        result = make(rng, g, range, none, false, x); });
    return result;
}

// -----------------------------------------------------------------------------
// Numbers.

struct Number
{
    bool whole;
    int64_t i;
    double d;
};

std::string shown(Number const& x)
{
    ev::Json json;
    json.s("k", x.whole ? "i64" : "f64");
    json.raw("v", x.whole ? in_units(x.i, 4) : in_units(x.d, 4));
    return json.text + "}";
}

// One that the type can hold.
Number some_number(ev::Rng& rng, ValueType type, Range range)
{
    Number x{rng.chance(50), 0, 0};
    if(x.whole) {
        with_type(is_float(type) ? fern::VT_INT32 : type, [&](auto t) {
            using T = decltype(t);
            if constexpr(std::is_same<T, uint64_t>::value) {
                x.i = some_value<uint32_t>(rng, range);
            }
            else if constexpr(std::is_integral<T>::value) {
                x.i = some_value<T>(rng,
                    is_float(type) && range == Range::Whole ?
                    Range::Small : range);
            }
        });
    }
    else {
        bool const sign = !is_unsigned(type) && range != Range::Signless;
        x.d = is_float(type) ? rng.range(sign ? -60 : 0, 60) / 4.0 :
            static_cast<double>(rng.range(sign ? -20 : 0, 20));
    }
    return x;
}

// -----------------------------------------------------------------------------
// Events.

fa::ExecutionPolicy& policy(ev::Rng& rng)
{
    static fa::ExecutionPolicy sequential{fa::SequentialExecutionPolicy()};
    static fa::ExecutionPolicy parallel{fa::ParallelExecutionPolicy(3)};
    if(rng.chance(10)) {
        fp::set_execution_policy(rng.chance(50) ? sequential : parallel);
        return const_cast<fa::ExecutionPolicy&>(fp::execution_policy());
    }
    return rng.chance(70) ? sequential : parallel;
}

template<typename Call>
Handle attempt(std::string& error, Call const& call)
{
    try { return call(); }
    catch(std::exception const& exception) {
        error = exception.what();
        if(error.empty()) { error = "?"; }
    }
    return Handle();
}

void finish(ev::Json& json, std::string const& error, std::string const& result)
{
    json.b("error", !error.empty()).s("why", error.substr(0, 80));
    if(error.empty()) { json.raw("r", result); }
    ev::end(json);
}

// The lists that rasters are made of.
void make_event(ev::Rng& rng)
{
    Geo const g = some_geo(rng);
    ValueType const type = rng.pick(usual);
    ev::Json json;
    if(rng.chance(20)) {
        json.s("op", "zeros");
        with_type(type, [&](auto t) { json.s("k", Name<decltype(t)>::of()); });
        json.i("rows", g.rows).i("cols", g.cols);
        json.is("at", std::vector<int64_t>{int64_t(4 * g.x), int64_t(4 * g.y)});
        json.is("cell", std::vector<int64_t>{int64_t(4 * g.width),
            int64_t(4 * g.height)});
        ev::begin(json);
        std::string error;
        Handle r = attempt(error, [&]() {
            return std::make_shared<fp::MaskedRaster>(
                bp::make_tuple(g.rows, g.cols), bp::make_tuple(g.x, g.y),
                bp::make_tuple(g.width, g.height), type); });
        finish(json, error, shown(r));
        return;
    }
    // The same raster twice: directly, and from lists.
    ev::Rng again = rng;
    Handle const a = some_raster(rng, g, type);
    json.s("op", "make").raw("a", shown(a));
    ev::begin(json);
    std::string error;
    Handle r = attempt(error, [&]() {
        Handle h;
        with_type(type, [&](auto x) {
            h = make(again, g, Range::Whole, 20, true, x); });
        return h; });
    finish(json, error, shown(r));
}

bool may_mix(ValueType a, ValueType b)
{
    // Negative numbers are not compared with numbers without sign.
    return is_unsigned(a) == is_unsigned(b) || is_float(a) || is_float(b);
}

void binary_event(ev::Rng& rng)
{
    std::string const op = rng.pick(std::vector<std::string>{"add", "multiply",
        "less", "greater"});
    bool const compare = op == "less" || op == "greater";
    ValueType const type = rng.pick(usual);
    Geo const g = some_geo(rng);
    int const form = rng.range(0, 2);
    fa::ExecutionPolicy& p = policy(rng);
    ev::Json json;
    json.s("op", op);
    Handle a, b;
    Number x{true, 0, 0};
    int const unit = op == "multiply" ? 16 : 4;
    std::string error;
    Handle r;
    auto run = [&](auto const& s, auto const& t) {
        return attempt(error, [&]() {
            return op == "add" ? fp::add(p, s, t) :
                op == "multiply" ? fp::multiply(p, s, t) :
                op == "less" ? fp::less(p, s, t) : fp::greater(p, s, t); });
    };
    if(form == 0) {
        ValueType const type2 = rng.chance(40) ? type : rng.pick(usual);
        Range const range = type == type2 ? Range::Whole :
            !compare || may_mix(type, type2) ?
            is_float(type) || is_float(type2) ? Range::Small : Range::Whole :
            Range::Signless;
        // Signed and unsigned integers are added as the type of the result.
        Range const used = !compare && !may_mix(type, type2) ?
            Range::Signless : range;
        Geo const g2 = another(rng, g);
        a = some_raster(rng, g, type, used);
        b = some_raster(rng, g2, type2, used);
        json.raw("a", shown(a)).raw("b", shown(b));
        ev::begin(json);
        r = run(a, b);
        json.raw("a2", shown(a)).raw("b2", shown(b));
    }
    else {
        Range const range = is_float(type) || !compare ? Range::Whole :
            type == fern::VT_UINT64 ? Range::Signless : Range::Small;
        a = some_raster(rng, g, type, range);
        x = compare ? some_number(rng, type == fern::VT_UINT64 ?
            fern::VT_UINT8 : fern::VT_INT32, range == Range::Whole ?
            Range::Small : range) : some_number(rng, type, range);
        json.raw(form == 1 ? "b" : "a", shown(a));
        json.raw(form == 1 ? "a" : "b", shown(x));
        ev::begin(json);
        r = form == 1 ? x.whole ? run(x.i, a) : run(x.d, a) :
            x.whole ? run(a, x.i) : run(a, x.d);
        json.raw(form == 1 ? "b2" : "a2", shown(a));
        json.raw(form == 1 ? "a2" : "b2", shown(x));
    }
    finish(json, error, shown(r, unit));
}

// In place.
void change_event(ev::Rng& rng)
{
    bool const add = rng.chance(50);
    ValueType const type = rng.pick(usual);
    Geo const g = some_geo(rng);
    bool const same_type = rng.chance(90);
    ValueType type2 = type;
    while(!same_type && type2 == type) { type2 = rng.pick(usual); }
    Handle a = some_raster(rng, g, type, Range::Whole);
    Handle const b = rng.chance(10) ? a : some_raster(rng, another(rng, g),
        type2, Range::Whole);
    bool const itself = b == a;
    Handle const other = a;         // Another name of the raster.
    fa::ExecutionPolicy& p = policy(rng);
    ev::Json json;
    json.s("op", add ? "iadd" : "imultiply");
    json.raw("a", shown(a)).raw("b", shown(b)).b("itself", itself);
    ev::begin(json);
    std::string error;
    bool same = false;
    int const unit = add ? 4 : 16;
    attempt(error, [&]() {
        Handle& r = add ? fp::iadd(p, a, b) : fp::imultiply(p, a, b);
        same = &r == &a && a == other;
        return r; });
    json.b("same", same);
    json.raw("b2", itself ? "0" : shown(b));
    json.raw("a2", error.empty() ? "0" : shown(a));
    finish(json, error, shown(other, unit));
}

void if_event(ev::Rng& rng)
{
    Geo const g = some_geo(rng);
    Geo const g2 = another(rng, g);
    ValueType const type = rng.pick(usual);
    int const form = rng.range(0, 2);
    Handle c;
    with_type(rng.pick(usual), [&](auto t) {
        c = make(rng, g, Range::Small, 20, false, t);
        auto& raster = c->raster<decltype(t)>();
        for(size_t i = 0; i < raster.size(); ++i) {
            if(!fern::is_no_data(raster.element(i)) && rng.chance(50)) {
                raster.element(i) = 0;
            }
        }
    });
    fa::ExecutionPolicy& p = policy(rng);
    ev::Json json;
    json.s("op", "if").raw("c", shown(c));
    std::string error;
    Handle r;
    Handle const a = some_raster(rng, g2, type);
    if(form == 0) {
        ValueType type2 = type;
        while(rng.chance(10)) { type2 = rng.pick(usual); }
        Handle const b = some_raster(rng, rng.chance(95) ? g2 :
            another(rng, g), type2);
        json.raw("a", shown(a)).raw("b", shown(b));
        ev::begin(json);
        r = attempt(error, [&]() { return fp::if_(p, c, a, b); });
        json.raw("a2", shown(a)).raw("b2", shown(b));
    }
    else {
        Number const x = some_number(rng, type, Range::Whole);
        json.raw(form == 1 ? "a" : "b", shown(x));
        json.raw(form == 1 ? "b" : "a", shown(a));
        ev::begin(json);
        r = attempt(error, [&]() {
            return form == 1 ?
                x.whole ? fp::if_(p, c, x.i, a) : fp::if_(p, c, x.d, a) :
                x.whole ? fp::if_(p, c, a, x.i) : fp::if_(p, c, a, x.d); });
        json.raw(form == 1 ? "a2" : "b2", shown(x));
        json.raw(form == 1 ? "b2" : "a2", shown(a));
    }
    json.raw("c2", shown(c));
    finish(json, error, shown(r));
}

void slope_event(ev::Rng& rng)
{
    Geo g = some_geo(rng);
    g.rows = rng.chance(95) ? rng.range(2, 5) : 1;
    g.cols = rng.chance(95) ? rng.range(2, 5) : 1;
    g.width = rng.range(4, 12) / 4.0;
    g.height = (rng.chance(50) ? 1 : -1) * rng.range(4, 12) / 4.0;
    Handle const a = some_raster(rng, g, rng.chance(90) ? rng.chance(50) ?
        fern::VT_FLOAT32 : fern::VT_FLOAT64 : rng.pick(usual), Range::Small);
    fa::ExecutionPolicy& p = policy(rng);
    ev::Json json;
    json.s("op", "slope").raw("a", shown(a, 1));
    ev::begin(json);
    std::string error;
    Handle const r = attempt(error, [&]() { return fp::slope(p, a); });
    json.raw("a2", shown(a, 1));
    finish(json, error, shown(r, 1, true));
}

// Types that operations do not know.
void unusual_event(ev::Rng& rng)
{
    Geo const g = some_geo(rng);
    Handle const a = some_raster(rng, g, rng.pick(unusual), Range::Small);
    Handle const b = some_raster(rng, g, rng.pick(usual), Range::Small);
    fa::ExecutionPolicy& p = policy(rng);
    ev::Json json;
    int const which = rng.range(0, 6);
    json.s("op", "unusual").i("which", which).raw("a", shown(a));
    ev::begin(json);
    std::string error;
    Handle c = a;
    Handle const r = attempt(error, [&]() {
        switch(which) {
            case 0: return fp::add(p, a, b);
            case 1: return fp::multiply(p, b, a);
            case 2: return fp::less(p, a, int64_t(3));
            case 3: return fp::greater(p, 2.0, a);
            case 4: return fp::if_(p, a, b, b);
            case 5: return fp::if_(p, b, a, int64_t(1));
            default: return fp::iadd(p, c, a);
        }
    });
    json.raw("a2", shown(a));
    finish(json, error, shown(r));
}

std::string scratch;

std::string a_file()
{
    static int n = 0;
    return scratch + "/raster" + std::to_string(n++) + ".tif";
}

void write_event(ev::Rng& rng)
{
    Geo const g = some_geo(rng);
    Handle const a = some_raster(rng, g, rng.chance(93) ? rng.pick(in_files) :
        rng.chance(50) ? fern::VT_UINT64 : fern::VT_INT64);
    int const way = rng.range(0, 19);
    std::string const format = way == 0 ? "NoSuchFormat" : way == 1 ? "PNG" :
        "GTiff";
    std::string const name = way == 2 ? scratch + "/no/such.tif" : a_file();
    ev::Json json;
    json.s("op", "write").raw("a", shown(a));
    json.s("to", way < 2 ? "format" : way == 2 ? "nowhere" : "file");
    ev::begin(json);
    std::string error;
    Handle const r = attempt(error, [&]() {
        fp::write_raster(a, name, format);
        return fp::read_raster(name); });
    json.raw("a2", shown(a));
    std::filesystem::remove(name);
    finish(json, error, shown(r));
}

// A raster in a file that something else made.
void read_event(ev::Rng& rng)
{
    Geo const g = some_geo(rng);
    int const way = rng.range(0, 19);
    ValueType const type = rng.pick(in_files);
    int64_t const mark = rng.range(0, 6);
    bool const marked = rng.chance(60);
    std::string const name = a_file();
    std::string error;
    ev::Json json;
    json.s("op", "read").b("there", way != 0);
    Handle r;
    with_type(type, [&](auto t) {
        using T = decltype(t);
        GDALDataType const type2 = way == 1 ? GDT_CFloat32 :
            std::is_same<T, uint8_t>::value ? GDT_Byte :
            std::is_same<T, uint16_t>::value ? GDT_UInt16 :
            std::is_same<T, int16_t>::value ? GDT_Int16 :
            std::is_same<T, uint32_t>::value ? GDT_UInt32 :
            std::is_same<T, int32_t>::value ? GDT_Int32 :
            std::is_same<T, float>::value ? GDT_Float32 : GDT_Float64;
        std::vector<T> values;
        std::vector<std::string> units;
        std::vector<bool> none;
        for(size_t i = 0; i < g.rows * g.cols; ++i) {
            values.push_back(static_cast<T>(rng.range(0, 6)));
            units.push_back(in_units(values[i], 4));
            none.push_back(marked && values[i] == static_cast<T>(mark));
        }
        if(way != 0) {
            auto* driver = GetGDALDriverManager()->GetDriverByName("GTiff");
            auto* dataset = driver->Create(name.c_str(), g.cols, g.rows,
                1 + (way == 2), type2, nullptr);
            double transformation[]{g.x, g.width, 0, g.y, 0, g.height};
            dataset->SetGeoTransform(transformation);
            auto* band = dataset->GetRasterBand(1);
            if(marked) { band->SetNoDataValue(mark); }
            if(way != 1) {
                if(band->RasterIO(GF_Write, 0, 0, g.cols, g.rows,
                        values.data(), g.cols, g.rows, type2, 0, 0) !=
                        CE_None) { throw std::logic_error("write"); }
            }
            GDALClose(dataset);
        }
        json.b("known", way != 1);
        json.s("k", Name<T>::of()).i("rows", g.rows).i("cols", g.cols);
        json.is("at", std::vector<int64_t>{int64_t(4 * g.x), int64_t(4 * g.y)});
        json.is("cell", std::vector<int64_t>{int64_t(4 * g.width),
            int64_t(4 * g.height)});
        json.raws("v", units).bs("n", none);
        ev::begin(json);
        r = attempt(error, [&]() { return fp::read_raster(name); });
    });
    std::filesystem::remove(name);
    finish(json, error, shown(r));
}

} // namespace

int main(int argc, char** argv)
{
    Py_InitializeEx(0);
    GDALAllRegister();
    CPLSetErrorHandler(CPLQuietErrorHandler);
    for(int i = 0; i < 2; ++i) { ev::kinds().push_back(make_event); }
    for(int i = 0; i < 6; ++i) { ev::kinds().push_back(binary_event); }
    for(int i = 0; i < 2; ++i) { ev::kinds().push_back(change_event); }
    for(int i = 0; i < 2; ++i) { ev::kinds().push_back(if_event); }
    for(int i = 0; i < 2; ++i) { ev::kinds().push_back(slope_event); }
    ev::kinds().push_back(unusual_event);
    for(int i = 0; i < 2; ++i) { ev::kinds().push_back(write_event); }
    ev::kinds().push_back(read_event);
    if(argc != 5) { return ev::main(argc, argv); }
    // The threads of the execution policy do not survive a fork.
    if(char const* directory = std::getenv("FERN_BINDINGS_SCRATCH")) {
        scratch = directory;
        return ev::main(argc, argv);
    }
    // The scratch directory is removed by the parent, also after a crash.
    char directory[] = "/tmp/fern-bindings-XXXXXX";
    if(!mkdtemp(directory)) { return 73; }
    setenv("FERN_BINDINGS_SCRATCH", directory, 1);
    pid_t const pid = fork();
    if(pid == 0) {
        execv("/proc/self/exe", argv);
        _exit(74);
    }
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    std::filesystem::remove_all(directory);
    return WIFEXITED(status) ? WEXITSTATUS(status) : 70;
}
