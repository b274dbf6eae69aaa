// Recording of algorithms on scalars and arrays with no-data policies.
#pragma once
#include "fern/core/data_customization_point/scalar.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_type_traits/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_type_traits/masked_array.h"
#include "fern/core/data_type_traits/scalar.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/core/result_type.h"
#include "events.h"
#include <memory>

namespace fa = fern::algorithm;

namespace local {

using ev::Json;
using ev::Rng;

// --- Names and encodings of values -------------------------------------------
template<typename T> struct Kind;
#define KIND(T, n) template<> struct Kind<T> { \
    static constexpr char const* name = n; };
KIND(bool, "b") KIND(int8_t, "i8") KIND(uint8_t, "u8") KIND(int16_t, "i16")
KIND(uint16_t, "u16") KIND(int32_t, "i32") KIND(uint32_t, "u32")
KIND(int64_t, "i64") KIND(uint64_t, "u64") KIND(float, "f32")
KIND(double, "f64")
#undef KIND

int64_t const not_a_number = 2000000001;
int64_t const plus_infinity = 2000000002;
int64_t const minus_infinity = 2000000003;
int64_t const too_large = 2000000004;
int64_t const inexact = 2000000005;

// The value as a number of units; special codes if that is impossible.
template<typename T>
int64_t enc(T value, long double unit)
{
    if constexpr(std::is_integral<T>::value) {
        long double x = static_cast<long double>(value) / unit;
        if(std::fabs(x) > 1999999999.0L) {
            return x > 0 ? too_large : -too_large;
        }
        return static_cast<int64_t>(x);
    }
    else {
        if(std::isnan(value)) return not_a_number;
        if(std::isinf(value)) {
            return value > 0 ? plus_infinity : minus_infinity;
        }
        long double x = static_cast<long double>(value) / unit;
        if(std::fabs(x) > 1999999999.0L) {
            return x > 0 ? too_large : -too_large;
        }
        if(std::floor(x) != x) return inexact;
        return static_cast<int64_t>(x);
    }
}

// Sign and limbs of 12 bits, least significant first.
template<typename T>
std::string big(T value)
{
    bool negative = false;
    uint64_t magnitude;
    if constexpr(std::is_signed<T>::value) {
        negative = value < 0;
        magnitude = negative
            ? ~static_cast<uint64_t>(static_cast<int64_t>(value)) + 1
            : static_cast<uint64_t>(value);
    }
    else {
        magnitude = static_cast<uint64_t>(value);
    }
    std::string text = "[";
    text += magnitude == 0 ? "0" : negative ? "-1" : "1";
    for(; magnitude; magnitude >>= 12) {
        text += "," + std::to_string(magnitude & 4095);
    }
    return text + "]";
}

template<typename T>
std::string enc_any(T value, long double unit, bool as_big)
{
    if constexpr(std::is_integral<T>::value) {
        if(as_big) return big(value);
    }
    return std::to_string(enc(value, unit));
}

// An operation can have encodings of its own: enc1, enc2 (arguments), encr.
#define HOOK(N, n)                                                           \
    template<typename Op, typename T, typename = void> struct N {            \
        static std::string encode(T x, long double unit, bool as_big) {      \
            return enc_any(x, unit, as_big); } };                            \
    template<typename Op, typename T>                                        \
    struct N<Op, T, std::void_t<decltype(Op::template n<T>(T{}))>> {         \
        static std::string encode(T x, long double, bool) {                  \
            return std::to_string(Op::template n<T>(x)); } };
HOOK(Enc1, enc1)
HOOK(Enc2, enc2)
HOOK(EncR, encr)
#undef HOOK

// The nearest number of units.
template<typename T>
int64_t nearest(T value, long double unit)
{
    if(std::isnan(value)) return not_a_number;
    if(std::isinf(value)) return value > 0 ? plus_infinity : minus_infinity;
    long double x = std::round(static_cast<long double>(value) / unit);
    if(std::fabs(x) > 1999999999.0L) return x > 0 ? too_large : -too_large;
    return static_cast<int64_t>(x);
}

// --- Policies chosen at run time, made of the real ones -----------------------
enum class In { skip, mask, value, by_value };
enum class Out { dont, mask, value, by_value };

inline char const* name(In m)
{
    return m == In::skip ? "skip" : m == In::mask ? "mask" :
        m == In::value ? "value" : "by_value";
}
inline char const* name(Out m)
{
    return m == Out::dont ? "dont" : m == Out::mask ? "mask" :
        m == Out::value ? "value" : "by_value";
}

template<typename C, typename M>
struct InPolicy
{
    In mode;
    C const* c;
    M const* m;
    fern::value_type<C> code;

    template<typename... I>
    bool is_no_data(I... i) const
    {
        switch(mode) {
            case In::skip: return fa::SkipNoData::is_no_data(i...);
            case In::mask: return fa::DetectNoDataByValue<M>(*m, true)
                .is_no_data(i...);
            case In::value:
                if constexpr(!std::is_same<fern::value_type<C>, bool>::value) {
                    return fa::DetectNoData<C>(*c).is_no_data(i...);
                }
                return false;
            case In::by_value: return fa::DetectNoDataByValue<C>(*c, code)
                .is_no_data(i...);
        }
        return false;
    }
};

template<typename C, typename M>
struct OutPolicy
{
    Out mode;
    C* c;
    M* m;
    fern::value_type<C> code;

    template<typename... I>
    void mark_as_no_data(I... i)
    {
        switch(mode) {
            case Out::dont: fa::DontMarkNoData::mark_as_no_data(i...); break;
            case Out::mask: fa::MarkNoDataByValue<M>(*m, true)
                .mark_as_no_data(i...); break;
            case Out::value: {
                if constexpr(!std::is_same<fern::value_type<C>, bool>::value) {
                    fa::MarkNoData<C>(*c).mark_as_no_data(i...);
                }
                break;
            }
            case Out::by_value: fa::MarkNoDataByValue<C>(*c, code)
                .mark_as_no_data(i...); break;
        }
    }
};

// --- Containers ---------------------------------------------------------------
struct Shape { size_t rows, cols; size_t size() const { return rows * cols; } };

template<typename T, int D> struct Store;

template<typename T>
struct Store<T, 0>
{
    using C = T;
    using M = bool;
    C c{};
    M m{false};
    explicit Store(Shape) {}
    C& values() { return c; }
    M& mask() { return m; }
    T& at(size_t) { return c; }
    bool& mask_at(size_t) { return m; }
    static size_t size(Shape) { return 1; }
};

template<typename T>
struct Store<T, 1>
{
    using C = fern::MaskedArray<T, 1>;
    using M = fern::Mask<1>;
    C c;
    explicit Store(Shape s): c(fern::extents[s.size()]) {}
    C& values() { return c; }
    M& mask() { return c.mask(); }
    T& at(size_t i) { return c.data()[i]; }
    bool& mask_at(size_t i) { return c.mask().data()[i]; }
    static size_t size(Shape s) { return s.size(); }
};

template<typename T>
struct Store<T, 2>
{
    using C = fern::MaskedArray<T, 2>;
    using M = fern::Mask<2>;
    C c;
    explicit Store(Shape s): c(fern::extents[s.rows][s.cols]) {}
    C& values() { return c; }
    M& mask() { return c.mask(); }
    T& at(size_t i) { return c.data()[i]; }
    bool& mask_at(size_t i) { return c.mask().data()[i]; }
    static size_t size(Shape s) { return s.size(); }
};

inline Shape shape(Rng& rng, int dimensions, size_t limit=40)
{
    if(dimensions == 0) return Shape{1, 1};
    if(dimensions == 1) {
        size_t n = rng.chance(15) ? rng.range(1, 3) : rng.range(1, limit);
        return Shape{1, n};
    }
    size_t rows = rng.chance(25) ? 1 : rng.range(1, 11);
    size_t cols = rng.chance(25) ? 1 : rng.range(1, std::max<int64_t>(
        1, static_cast<int64_t>(limit / rows)));
    return Shape{rows, cols};
}

// A value of type T marks no-data if the policy goes by value.
template<typename T>
T type_code()
{
    if constexpr(std::is_same<T, bool>::value) return true;
    else return fern::no_data_value<T>();
}

template<typename T>
T user_code()
{
    if constexpr(std::is_same<T, bool>::value) return true;
    else return T(107);
}

// An input: values, which cells are no-data, and the policy that finds out.
template<typename T, int D>
struct Input
{
    using S = Store<T, D>;
    using C = typename S::C;
    using M = typename S::M;
    std::shared_ptr<S> store;
    In mode;
    std::vector<T> v;
    std::vector<bool> nd;

    Input(Rng& rng, Shape s, bool plain, std::function<T(size_t)> const& gen)
        : store(std::make_shared<S>(s))
    {
        size_t n = S::size(s);
        mode = plain || rng.chance(15) ? In::skip : rng.chance(70) ? In::mask :
            rng.chance(50) ? In::value : In::by_value;
        if(std::is_same<T, bool>::value &&
            (mode == In::value || mode == In::by_value)) mode = In::mask;
        int density = rng.chance(20) ? 90 : rng.chance(20) ? 0 : 25;
        if(D == 0) density = 25;
        if(rng.chance(5)) density = 100;
        for(size_t i = 0; i < n; ++i) {
            bool is = mode != In::skip && rng.chance(density);
            T value = gen(i);
            if(mode == In::value || mode == In::by_value) {
                T code = mode == In::value ? type_code<T>() : user_code<T>();
                for(int k = 0; value == code && k < 100; ++k) value = gen(i);
                if(value == code) value = T(1);
                if(is) value = code;
            }
            store->at(i) = value;
            if(mode == In::mask) store->mask_at(i) = is;
            // Marks that nobody looks at.
            if(mode != In::mask && rng.chance(10)) store->mask_at(i) = true;
            v.push_back(value);
            nd.push_back(is);
        }
    }

    InPolicy<C, M> policy()
    {
        return InPolicy<C, M>{mode, &store->values(), &store->mask(),
            user_code<T>()};
    }

    template<typename Encoding>
    void write(Json& j, char k, long double unit, bool as_big, Encoding) const
    {
        std::vector<std::string> values;
        for(T x: v) values.push_back(Encoding::encode(x, unit, as_big));
        j.raws((std::string("v") + k).c_str(), values);
        j.bs((std::string("n") + k).c_str(), nd);
        j.s((std::string("k") + k).c_str(), Kind<T>::name);
    }

    bool unchanged() const
    {
        for(size_t i = 0; i < v.size(); ++i) {
            T now = store->at(i);
            T then = v[i];
            if(std::memcmp(&now, &then, sizeof(T)) != 0) return false;
        }
        return true;
    }
};

template<typename T, int D>
struct Output
{
    using S = Store<T, D>;
    using C = typename S::C;
    using M = typename S::M;
    std::shared_ptr<S> store;
    Out mode;
    std::vector<bool> prior;

    // A container of its own.
    Output(Rng& rng, Shape s, bool plain)
        : store(std::make_shared<S>(s))
    {
        mode = plain || rng.chance(10) ? Out::dont : rng.chance(75) ?
            Out::mask : rng.chance(50) ? Out::value : Out::by_value;
        if(std::is_same<T, bool>::value &&
            (mode == Out::value || mode == Out::by_value)) mode = Out::mask;
        bool marks = rng.chance(30);
        for(size_t i = 0; i < S::size(s); ++i) {
            store->at(i) = T(rng.range(0, 100));
            bool is = marks && rng.chance(30);
            store->mask_at(i) = is;
            prior.push_back(is);
        }
    }

    // In place.
    Output(Rng& rng, Shape s, std::shared_ptr<S> other, In in)
        : store(other)
    {
        mode = in == In::mask ? Out::mask : in == In::value ? Out::value :
            in == In::by_value ? Out::by_value :
            rng.chance(50) ? Out::mask : Out::dont;
        for(size_t i = 0; i < S::size(s); ++i) {
            prior.push_back(store->mask_at(i));
        }
    }

    OutPolicy<C, M> policy()
    {
        return OutPolicy<C, M>{mode, &store->values(), &store->mask(),
            user_code<T>()};
    }

    // rn: the cell is marked (in the mask, or by its value).
    template<typename Encoding>
    void write(Json& j, long double unit, bool as_big, Encoding) const
    {
        std::vector<std::string> values;
        std::vector<bool> rn;
        for(size_t i = 0; i < prior.size(); ++i) {
            T x = store->at(i);
            values.push_back(Encoding::encode(x, unit, as_big));
            rn.push_back(
                mode == Out::value ? x == type_code<T>() :
                mode == Out::by_value ? x == user_code<T>() :
                static_cast<bool>(store->mask_at(i)));
        }
        j.raws("r", values).bs("rn", rn).bs("p", prior)
            .s("out", name(mode)).s("kr", Kind<T>::name);
    }
};

// --- Execution ------------------------------------------------------------------
// Policies are expensive (threads); keep one of each size.
struct Execution
{
    fa::ExecutionPolicy policy;
    std::string name;
};

inline Execution& execution(Rng& rng)
{
    static std::vector<Execution>* all = nullptr;
    if(!all) {
        all = new std::vector<Execution>;
        all->push_back(Execution{fa::SequentialExecutionPolicy{}, "seq"});
        for(int n: {1, 2, 3, 5}) {
            all->push_back(Execution{fa::ParallelExecutionPolicy(n),
                "par" + std::to_string(n)});
        }
    }
    return (*all)[rng.chance(50) ? 0 : rng.range(1, all->size() - 1)];
}

// Some operations on 1D arrays only take the policies themselves, not the
// variant.
template<typename F>
void with_policy(fa::ExecutionPolicy& policy, F const& f)
{
    if(auto* p = boost::get<fa::SequentialExecutionPolicy>(&policy)) {
        f(*p);
    }
    else {
        f(boost::get<fa::ParallelExecutionPolicy>(policy));
    }
}

// --- Values -----------------------------------------------------------------------
template<typename T>
T edge_value(Rng& rng)
{
    using L = std::numeric_limits<T>;
    if constexpr(std::is_same<T, bool>::value) {
        return rng.chance(50);
    }
    else if constexpr(std::is_integral<T>::value) {
        switch(rng.range(0, 7)) {
            case 0: return L::max() - T(rng.range(0, 3));
            case 1: return L::min() + T(rng.range(0, 3));
            case 2: return T(rng.range(0, 5));
            case 3: return T(-rng.range(0, 5));
            case 4: return L::max() / 2 + T(rng.range(-2, 2));
            case 5: {
                // Around powers of two.
                int bits = rng.range(0, 8 * sizeof(T) - 1);
                T x = static_cast<T>(uint64_t(1) << bits);
                return static_cast<T>(x + T(rng.range(-2, 2)));
            }
            default: return static_cast<T>(rng.next());
        }
    }
    else {
        return T(rng.range(-800, 800)) / T(8);
    }
}

struct Units2 { long double u1{1}, u2{1}, ur{1}; };
struct Units1 { long double u1{1}, ur{1}; };

// --- Recording one call -------------------------------------------------------------
// Op provides: name; R<T1, T2>; units(): struct with members u1, u2, ur (for
// floats); gen2(rng), gen1(rng, b); domain is the specification's business,
// plain(a, b) tells whether the call without checks may be made at all;
// checked(in, out, execution, a, b, r); simple(execution, a, b, r).
template<typename Op, typename T1, typename T2>
constexpr bool as_big()
{
    using R = typename Op::template R<T1, T2>;
    auto wide = [](bool integral, size_t size) {
        return integral && size >= 4; };
    return wide(std::is_integral<T1>::value, sizeof(T1)) ||
        wide(std::is_integral<T2>::value, sizeof(T2)) ||
        wide(std::is_integral<R>::value, sizeof(R)) ||
        (Op::may_be_large && (sizeof(T1) == 2 || sizeof(T2) == 2) &&
            std::is_integral<R>::value);
}

template<typename Op, typename T1, typename T2, int D1, int D2>
void binary_with(Rng& rng, Shape s, bool plain, bool in_place,
    std::function<T1(size_t)> const& g1, std::function<T2(size_t)> const& g2)
{
    using R = typename Op::template R<T1, T2>;
    constexpr int D = D1 > D2 ? D1 : D2;
    // Values that are integers in one argument and floats in the other are
    // written as integers both.
    constexpr bool is_float = std::is_floating_point<R>::value ||
        std::is_floating_point<T1>::value || std::is_floating_point<T2>::value;
    constexpr bool large = !is_float && as_big<Op, T1, T2>();
    auto units = is_float ? Op::template units<T1, T2>() : Units2{};

    Input<T2, D2> b(rng, s, plain, g2);
    Input<T1, D1> a(rng, s, plain, g1);
    auto execution = local::execution(rng);

    auto call = [&](auto& output) {
        Json head;
        head.s("op", Op::name);
        a.write(head, '1', units.u1, large, Enc1<Op, T1>());
        b.write(head, '2', units.u2, large, Enc2<Op, T2>());
        head.i("d1", D1).i("d2", D2).i("rows", s.rows).i("cols", s.cols)
            .s("ex", execution.name).b("chk", !plain).b("big", large)
            .s("i1", name(a.mode)).s("i2", name(b.mode))
            .i("bound", Op::bound)
            .b("inpl", static_cast<void const*>(output.store.get()) ==
                static_cast<void const*>(a.store.get()));
        ev::begin(head);
        if(plain) {
            Op::simple(execution.policy, a.store->values(), b.store->values(),
                output.store->values());
        }
        else {
            fa::InputNoDataPolicies<decltype(a.policy()),
                decltype(b.policy())> in{a.policy(), b.policy()};
            auto out = output.policy();
            Op::checked(in, out, execution.policy, a.store->values(),
                b.store->values(), output.store->values());
        }
        bool same = b.unchanged() &&
            (static_cast<void const*>(output.store.get()) ==
             static_cast<void const*>(a.store.get()) || a.unchanged());
        output.write(head, units.ur, large, EncR<Op, R>());
        head.b("same", same);
        ev::end(head);
    };

    if constexpr(std::is_same<T1, R>::value && D1 == D) {
        // Only without checks: these look at the arguments afterwards.
        if(in_place && plain) {
            Output<R, D> output(rng, s, a.store, a.mode);
            output.mode = Out::dont;
            call(output);
            return;
        }
    }
    Output<R, D> output(rng, s, plain);
    call(output);
}

template<typename Op, typename T1, typename T2, int D1, int D2>
void binary(Rng& rng)
{
    constexpr int D = D1 > D2 ? D1 : D2;
    Shape s = shape(rng, D);
    bool plain = rng.chance(10) && Op::has_simple;
    // Pairs of values; the scalar, if any, comes first.
    std::vector<T1> a;
    std::vector<T2> b;
    for(size_t i = 0; i < s.size(); ++i) {
        b.push_back(D2 == 0 && i > 0 ? b[0]
            : Op::template gen2<T1, T2>(rng));
        a.push_back(D1 == 0 && i > 0 ? a[0]
            : Op::template gen1<T1, T2>(rng, b[i]));
        if(plain && !Op::plain(a[i], b[i])) b[i] = T2(1);
        if(plain && !Op::plain(a[i], b[i])) a[i] = T1(1);
        if(D2 == 0) b[i] = b[0] = b[i];
    }
    if(plain) {
        for(size_t i = 0; i < s.size(); ++i) {
            if(!Op::plain(D1 == 0 ? a[0] : a[i], D2 == 0 ? b[0] : b[i])) {
                plain = false;
            }
        }
    }
    binary_with<Op, T1, T2, D1, D2>(rng, s, plain, rng.chance(40),
        [&](size_t i) { return a[i]; }, [&](size_t i) { return b[i]; });
}

template<typename Op, typename T1, typename T2>
void binary_shapes()
{
    auto& k = ev::kinds();
    k.push_back(binary<Op, T1, T2, 0, 0>);
    k.push_back(binary<Op, T1, T2, 1, 0>);
    k.push_back(binary<Op, T1, T2, 0, 1>);
    k.push_back(binary<Op, T1, T2, 1, 1>);
    k.push_back(binary<Op, T1, T2, 2, 0>);
    k.push_back(binary<Op, T1, T2, 0, 2>);
    k.push_back(binary<Op, T1, T2, 2, 2>);
}

template<typename Op, typename T, int D>
void unary(Rng& rng)
{
    using R = typename Op::template R<T>;
    constexpr bool is_float = std::is_floating_point<R>::value ||
        std::is_floating_point<T>::value;
    constexpr bool large = !is_float && (sizeof(T) >= 4 || sizeof(R) >= 4);
    auto units = is_float ? Op::template units<T>() : Units1{};
    Shape s = shape(rng, D);
    bool plain = rng.chance(10) && Op::has_simple;
    bool in_place = rng.chance(40);
    Input<T, D> a(rng, s, plain, [&](size_t) {
        T x = Op::template gen<T>(rng);
        for(int k = 0; plain && !Op::plain(x) && k < 1000; ++k) {
            x = Op::template gen<T>(rng);
        }
        return x;
    });
    auto execution = local::execution(rng);
    auto call = [&](auto& output) {
        Json head;
        head.s("op", Op::name);
        a.write(head, '1', units.u1, large, Enc1<Op, T>());
        head.i("d1", D).i("rows", s.rows).i("cols", s.cols)
            .s("ex", execution.name).b("chk", !plain).b("big", large)
            .s("i1", name(a.mode))
            .b("inpl", static_cast<void const*>(output.store.get()) ==
                static_cast<void const*>(a.store.get()));
        ev::begin(head);
        if(plain) {
            Op::simple(execution.policy, a.store->values(),
                output.store->values());
        }
        else {
            fa::InputNoDataPolicies<decltype(a.policy())> in{a.policy()};
            auto out = output.policy();
            Op::checked(in, out, execution.policy, a.store->values(),
                output.store->values());
        }
        bool same = static_cast<void const*>(output.store.get()) ==
             static_cast<void const*>(a.store.get()) || a.unchanged();
        output.write(head, units.ur, large, EncR<Op, R>());
        head.b("same", same);
        ev::end(head);
    };
    if constexpr(std::is_same<T, R>::value) {
        // Only without checks: these look at the arguments afterwards.
        if(in_place && plain) {
            Output<R, D> output(rng, s, a.store, a.mode);
            output.mode = Out::dont;
            call(output);
            return;
        }
    }
    Output<R, D> output(rng, s, plain);
    call(output);
}

template<typename Op, typename T>
void unary_shapes()
{
    auto& k = ev::kinds();
    k.push_back(unary<Op, T, 0>);
    k.push_back(unary<Op, T, 1>);
    k.push_back(unary<Op, T, 2>);
}

} // namespace local
