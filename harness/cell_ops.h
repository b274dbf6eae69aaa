// Operations on one cell of each argument, other than arithmetic.
#pragma once
#include "arith_ops.h"
#include "fern/algorithm/algebra/elementary/ceil.h"
#include "fern/algorithm/algebra/elementary/equal.h"
#include "fern/algorithm/algebra/elementary/factorial.h"
#include "fern/algorithm/algebra/elementary/floor.h"
#include "fern/algorithm/algebra/elementary/greater.h"
#include "fern/algorithm/algebra/elementary/greater_equal.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/elementary/less_equal.h"
#include "fern/algorithm/algebra/elementary/log.h"
#include "fern/algorithm/algebra/elementary/log10.h"
#include "fern/algorithm/algebra/elementary/log2.h"
#include "fern/algorithm/algebra/elementary/pow.h"
#include "fern/algorithm/algebra/elementary/round.h"
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/elementary/tgamma.h"
#include "fern/algorithm/algebra/elementary/trunc.h"
#include "fern/algorithm/algebra/boole/and.h"
#include "fern/algorithm/algebra/boole/defined.h"
#include "fern/algorithm/algebra/boole/nor.h"
#include "fern/algorithm/algebra/boole/not.h"
#include "fern/algorithm/algebra/boole/or.h"
#include "fern/algorithm/algebra/boole/xnor.h"
#include "fern/algorithm/algebra/boole/xor.h"
#include "fern/algorithm/statistic/binary_max.h"
#include "fern/algorithm/statistic/binary_min.h"
#include "fern/algorithm/trigonometry/acos.h"
#include "fern/algorithm/trigonometry/asin.h"
#include "fern/algorithm/trigonometry/atan.h"
#include "fern/algorithm/trigonometry/cos.h"
#include "fern/algorithm/trigonometry/sin.h"
#include "fern/algorithm/trigonometry/tan.h"

namespace {

// Binary operations without policies of their own.
#define CALLS2(CALL, UR)                                                     \
    static constexpr bool has_simple = true;                                 \
    static constexpr int bound = 0;                                          \
    static constexpr bool may_be_large = false;                              \
    template<typename I, typename O, typename A, typename B, typename C>     \
    static void checked(I const& in, O& out, fa::ExecutionPolicy& ex,        \
        A const& a, B const& b, C& c) { CALL(in, out, ex, a, b, c); }        \
    template<typename A, typename B, typename C>                             \
    static void simple(fa::ExecutionPolicy& ex, A const& a, B const& b,      \
        C& c) { CALL(ex, a, b, c); }                                         \
    template<typename A, typename B> static bool plain(A, B) { return true; } \
    template<typename T1, typename T2> static Units2 units() {               \
        return Units2{0.125L, 0.125L, UR}; }

// Values that are often equal, or next to each other.
template<typename T> T near_value(Rng& rng)
{
    if(rng.chance(60)) return T(rng.range(0, 3)) +
        (std::is_same<T, bool>::value ? T(0) : T(rng.chance(50) ? 0 :
            std::is_signed<T>::value ? -2 : 1));
    return edge_value<T>(rng);
}

#define COMPARISON(NAME, OP, CALL, RESULT)                                   \
struct NAME {                                                                \
    static constexpr char const* name = OP;                                  \
    template<typename T1, typename T2> using R = RESULT;                     \
    CALLS2(CALL, 1.0L)                                                       \
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {            \
        return near_value<T2>(rng); }                                        \
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2 b) {      \
        if(rng.chance(35)) {                                                 \
            T1 x = static_cast<T1>(b);                                       \
            if(static_cast<T2>(x) == b) return x; }                          \
        return near_value<T1>(rng); }                                        \
};
COMPARISON(Equal, "equal", fa::algebra::equal, bool)
COMPARISON(Less, "less", fa::algebra::less, bool)
COMPARISON(LessEqual, "less_equal", fa::algebra::less_equal, bool)
COMPARISON(Greater, "greater", fa::algebra::greater, bool)
COMPARISON(GreaterEqual, "greater_equal", fa::algebra::greater_equal, bool)
COMPARISON(LessU8, "less", fa::algebra::less, uint8_t)
COMPARISON(GreaterI32, "greater", fa::algebra::greater, int32_t)

#define BOOLEAN(NAME, OP, CALL, RESULT)                                      \
struct NAME {                                                                \
    static constexpr char const* name = OP;                                  \
    template<typename T1, typename T2> using R = RESULT;                     \
    CALLS2(CALL, 1.0L)                                                       \
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {            \
        return rng.chance(40) ? T2(0) : near_value<T2>(rng); }               \
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2) {        \
        return rng.chance(40) ? T1(0) : near_value<T1>(rng); }               \
};
BOOLEAN(And, "and", fa::algebra::and_, bool)
BOOLEAN(Or, "or", fa::algebra::or_, bool)
BOOLEAN(Xor, "xor", fa::algebra::xor_, bool)
BOOLEAN(Nor, "nor", fa::algebra::nor, bool)
BOOLEAN(Xnor, "xnor", fa::algebra::xnor, bool)
BOOLEAN(XorI16, "xor", fa::algebra::xor_, int16_t)
BOOLEAN(AndF64, "and", fa::algebra::and_, double)


#define EXTREME(NAME, OP, CALL)                                              \
struct NAME {                                                                \
    static constexpr char const* name = OP;                                  \
    template<typename T1, typename T2> using R = T1;                         \
    CALLS2(CALL, 0.125L)                                                     \
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {            \
        return near_value<T2>(rng); }                                        \
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2) {        \
        return near_value<T1>(rng); }                                        \
};
EXTREME(Min, "min", fa::statistic::binary_min)
EXTREME(Max, "max", fa::statistic::binary_max)

// Unary operations.
#define CALLS1(CHECKED, CALL)                                                \
    static constexpr bool has_simple = true;                                 \
    template<typename I, typename O, typename A, typename C>                 \
    static void checked(I const& in, O& out, fa::ExecutionPolicy& ex,        \
        A const& a, C& c) { CHECKED(in, out, ex, a, c); }                    \
    template<typename A, typename C>                                         \
    static void simple(fa::ExecutionPolicy& ex, A const& a, C& c) {          \
        CALL(ex, a, c); }

#define ROUNDING(NAME, OP, CALL)                                             \
struct NAME {                                                                \
    static constexpr char const* name = OP;                                  \
    template<typename T> using R = T;                                        \
    CALLS1(CALL, CALL)                                                       \
    template<typename T> static Units1 units() {                             \
        return Units1{0.125L, 1.0L}; }                                       \
    template<typename T> static T gen(Rng& rng) {                            \
        return rng.chance(70) ? T(rng.range(-40, 40)) / T(8) :               \
            rng.chance(80) ? T(rng.range(-80000, 80000)) / T(8) :            \
            T(rng.range(-100000000, 100000000)); }                           \
    template<typename T> static bool plain(T) { return true; }               \
};                                                                           \
/* Values without a fraction that integers can't hold. */                    \
struct NAME##Huge: NAME {                                                    \
    static constexpr char const* name = "same";                              \
    template<typename T> static Units1 units() {                             \
        return Units1{std::ldexp(1.0L, 80), std::ldexp(1.0L, 80)}; }         \
    template<typename T> static T gen(Rng& rng) {                            \
        return T(rng.range(-1000, 1000)) * T(std::ldexp(1.0L, 80)); }        \
};                                                                           \
/* Values next to integers and to halves: written as one eighth more or less.*/\
struct NAME##Near: NAME {                                                    \
    template<typename T> static int64_t enc1(T x) {                          \
        if(!std::isfinite(x)) { return local::nearest(x, 0.125L); }          \
        T const whole = std::floor(x), half = whole + T(0.5);                \
        return int64_t(whole) * 8 +                                          \
            (x == whole ? 0 : x < half ? 3 : x == half ? 4 : 5); }           \
    template<typename T> static T gen(Rng& rng) {                            \
        T x = T(rng.range(-6, 6)) / T(2);                                    \
        if(rng.chance(20)) { x += T(rng.range(-1000, 1000) * 1000); }        \
        int const which = rng.range(0, 4);                                   \
        return which < 2 ? std::nextafter(x, T(1e9)) :                       \
            which < 4 ? std::nextafter(x, T(-1e9)) : x; }                    \
};                                                                           \
/* The first values that have no fractions. */                               \
struct NAME##Wide: NAME {                                                    \
    static constexpr char const* name = "same";                              \
    template<typename T> static T first() {                                  \
        return std::ldexp(T(1), std::numeric_limits<T>::digits - 1); }       \
    template<typename T> static int64_t enc1(T x) {                          \
        if(!std::isfinite(x)) { return local::nearest(x, 1.0L); }            \
        if(std::fabs(x) > 2 * first<T>()) { return local::too_large; }       \
        return x < 0 ? -int64_t(-x - first<T>()) - 1000000 :                 \
            int64_t(x - first<T>()) + 1000000; }                             \
    template<typename T> static int64_t encr(T x) { return enc1(x); }        \
    template<typename T> static T gen(Rng& rng) {                            \
        T const x = first<T>() + T(rng.range(0, 100000));                    \
        return rng.chance(50) ? x : -x; }                                    \
};
ROUNDING(Floor, "floor", fa::algebra::floor)
ROUNDING(Ceil, "ceil", fa::algebra::ceil)
ROUNDING(Round, "round", fa::algebra::round)
ROUNDING(Trunc, "trunc", fa::algebra::trunc)

#define NEGATION(NAME, RESULT)                                               \
struct NAME {                                                                \
    static constexpr char const* name = "not";                               \
    template<typename T> using R = RESULT;                                   \
    CALLS1(fa::algebra::not_, fa::algebra::not_)                             \
    template<typename T> static Units1 units() {                             \
        return Units1{0.125L, 1.0L}; }                                       \
    template<typename T> static T gen(Rng& rng) {                            \
        return rng.chance(40) ? T(0) : near_value<T>(rng); }                 \
    template<typename T> static bool plain(T) { return true; }               \
};
NEGATION(Not, bool)
NEGATION(NotU8, uint8_t)

template<typename T> T special(Rng& rng)
{
    using L = std::numeric_limits<T>;
    switch(rng.range(0, 2)) {
        case 0: return L::quiet_NaN();
        case 1: return L::infinity();
        default: return -L::infinity();
    }
}

// Squares of multiples of 1/8.
struct Sqrt
{
    static constexpr char const* name = "sqrt";
    template<typename T> using R = T;
    CALLS1(fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>, fa::algebra::sqrt)
    template<typename T> static Units1 units() {
        return Units1{1.0L / 64, 0.125L}; }
    template<typename T> static T gen(Rng& rng) {
        if(rng.chance(10)) return T(-rng.range(1, 300)) / T(64);
        if(rng.chance(5)) return special<T>(rng);
        T x = T(rng.range(0, 3000)) / T(8);
        return x * x; }
    template<typename T> static bool plain(T x) { return x >= T(0); }
};

// Results are written in millionths.
#define MICRO                                                                \
    template<typename T> static int64_t encr(T x) {                          \
        return nearest(x, 1e-6L); }

// Powers of a base, by the exponent.
template<typename Base>
struct Logarithm
{
    template<typename T> using R = T;
    MICRO
    template<typename T> static Units1 units() { return Units1{}; }
    template<typename T> static int64_t enc1(T x) {
        // Too small, or too large, for the exponent.
        if(std::isnan(x)) return not_a_number;
        if(std::isinf(x)) return x > 0 ? plus_infinity : minus_infinity;
        if(x < T(0)) return -1000;
        if(x == T(0)) return 1000;
        return nearest(std::log(static_cast<long double>(x)) /
            std::log(static_cast<long double>(Base::base)), 1.0L); }
    template<typename T> static T gen(Rng& rng) {
        if(rng.chance(10)) return T(-rng.range(1, 300)) / T(64);
        if(rng.chance(5)) return T(0);
        if(rng.chance(5)) return special<T>(rng);
        return static_cast<T>(std::pow(static_cast<long double>(Base::base),
            static_cast<long double>(rng.range(-30, 30)))); }
    template<typename T> static bool plain(T x) { return x > T(0); }
};
struct Two { static constexpr long double base = 2; };
struct Ten { static constexpr long double base = 10; };
struct Log: Logarithm<Two>
{
    static constexpr char const* name = "log";
    CALLS1(fa::algebra::log<fa::log::OutOfDomainPolicy>, fa::algebra::log)
};
struct Log2: Logarithm<Two>
{
    static constexpr char const* name = "log2";
    CALLS1(fa::algebra::log2<fa::log2::OutOfDomainPolicy>, fa::algebra::log2)
};
struct Log10: Logarithm<Ten>
{
    static constexpr char const* name = "log10";
    CALLS1(fa::algebra::log10<fa::log10::OutOfDomainPolicy>,
        fa::algebra::log10)
};

// Arguments are multiples of 1/2.
struct Factorial
{
    static constexpr char const* name = "factorial";
    template<typename T> using R = T;
    CALLS1((fa::algebra::factorial<fa::factorial::OutOfDomainPolicy,
        fa::factorial::OutOfRangePolicy>), fa::algebra::factorial)
    template<typename T> static Units1 units() { return Units1{0.5L, 1.0L}; }
    template<typename T> static T gen(Rng& rng) {
        if constexpr(floating<T>) {
            if(rng.chance(15)) return T(rng.range(-9, 9)) / T(2);
            return T(rng.range(0, rng.chance(50) ? 14 : 180)); }
        else {
            if(std::is_signed<T>::value && rng.chance(10)) {
                return T(-rng.range(1, 5)); }
            if(rng.chance(5)) return edge_value<T>(rng);
            return T(rng.range(0, 24)); }
    }
    template<typename T> static bool plain(T x) {
        return x >= T(0) && x < T(6) && x == std::floor(x); }
};

struct Tgamma
{
    static constexpr char const* name = "tgamma";
    template<typename T> using R = T;
    CALLS1((fa::algebra::tgamma<fa::tgamma::OutOfDomainPolicy,
        fa::tgamma::OutOfRangePolicy>), fa::algebra::tgamma)
    MICRO
    template<typename T> static Units1 units() { return Units1{0.5L, 1.0L}; }
    template<typename T> static T gen(Rng& rng) {
        if(rng.chance(50)) {
            int64_t k = rng.range(-3, 5);
            return T(k % 2 ? k : k - 2) / T(2); }
        return T(rng.range(-3, rng.chance(50) ? 8 : 180)); }
    template<typename T> static bool plain(T x) {
        return x > T(0) && x < T(8); }
};

// Arguments are written in steps of 15 degrees.

template<bool IsTan>
struct Angles
{
    template<typename T> using R = T;
    MICRO
    template<typename T> static Units1 units() { return Units1{}; }
    template<typename T> static int64_t enc1(T x) {
        return nearest(x, 3.14159265358979323846L / 12); }
    template<typename T> static T gen(Rng& rng) {
        if(rng.chance(5)) return special<T>(rng);
        int64_t k = rng.range(-24, 24);
        if(IsTan) {
            if(rng.chance(15)) k = rng.chance(50) ? 6 : -6;
            if(k == 18 || k == -18) k = 0; }
        if(k == 6) return static_cast<T>(1.57079632679489661923L);
        if(k == -6) return -static_cast<T>(1.57079632679489661923L);
        return static_cast<T>(k * (3.14159265358979323846L / 12)); }
    template<typename T> static bool plain(T x) {
        return std::isfinite(x) && std::abs(enc1(x)) != 6; }
};
struct Sin: Angles<false>
{
    static constexpr char const* name = "sin";
    CALLS1(fa::trigonometry::sin<fa::sin::OutOfDomainPolicy>,
        fa::trigonometry::sin)
};
struct Cos: Angles<false>
{
    static constexpr char const* name = "cos";
    CALLS1(fa::trigonometry::cos<fa::cos::OutOfDomainPolicy>,
        fa::trigonometry::cos)
};
struct Tan: Angles<true>
{
    static constexpr char const* name = "tan";
    CALLS1(fa::trigonometry::tan<fa::tan::OutOfDomainPolicy>,
        fa::trigonometry::tan)
};

// Arguments are written in millionths. One above 1 is the next number.
struct Ratios
{
    template<typename T> using R = T;
    MICRO
    template<typename T> static Units1 units() { return Units1{}; }
    template<typename T> static int64_t enc1(T x) {
        if(x > T(1) && x < T(1.001)) return 1000001;
        if(x < T(-1) && x > T(-1.001)) return -1000001;
        return nearest(x, 1e-6L); }
    template<typename T> static T gen(Rng& rng) {
        if(rng.chance(10)) return special<T>(rng);
        T sign = rng.chance(50) ? T(1) : T(-1);
        switch(rng.range(0, 7)) {
            case 0: return T(0);
            case 1: return sign * T(0.5);
            case 2: return sign * std::sqrt(T(0.5));
            case 3: return sign * std::sqrt(T(0.75));
            case 4: case 5: return sign;
            case 6: return sign * T(1.5);
            default: return sign * std::nextafter(T(1), T(2));
        }
    }
    template<typename T> static bool plain(T x) {
        return x >= T(-1) && x <= T(1); }
};
struct Acos: Ratios
{
    static constexpr char const* name = "acos";
    CALLS1(fa::trigonometry::acos<fa::acos::OutOfDomainPolicy>,
        fa::trigonometry::acos)
};
struct Asin: Ratios
{
    static constexpr char const* name = "asin";
    CALLS1(fa::trigonometry::asin<fa::asin::OutOfDomainPolicy>,
        fa::trigonometry::asin)
};
struct Atan
{
    static constexpr char const* name = "atan";
    template<typename T> using R = T;
    CALLS1(fa::trigonometry::atan, fa::trigonometry::atan)
    MICRO
    template<typename T> static Units1 units() { return Units1{}; }
    // Tangents of steps of 15 degrees.
    template<typename T> static int64_t enc1(T x) {
        return nearest(std::atan(static_cast<long double>(x)),
            3.14159265358979323846L / 12); }
    template<typename T> static T gen(Rng& rng) {
        int64_t k = rng.range(-6, 6);
        if(k == 6) return std::numeric_limits<T>::infinity();
        if(k == -6) return -std::numeric_limits<T>::infinity();
        return static_cast<T>(std::tan(k * (3.14159265358979323846L / 12))); }
    template<typename T> static bool plain(T) { return true; }
};

// Bases are integers, exponents multiples of 1/2.
struct Pow
{
    static constexpr char const* name = "pow";
    static constexpr bool has_simple = true;
    static constexpr int bound = 0;
    static constexpr bool may_be_large = false;
    template<typename T1, typename T2> using R = T1;
    template<typename I, typename O, typename A, typename B, typename C>
    static void checked(I const& in, O& out, fa::ExecutionPolicy& ex,
        A const& a, B const& b, C& c) {
        fa::algebra::pow<fa::pow::OutOfDomainPolicy,
            fa::pow::OutOfRangePolicy>(in, out, ex, a, b, c); }
    template<typename A, typename B, typename C>
    static void simple(fa::ExecutionPolicy& ex, A const& a, B const& b,
        C& c) { fa::algebra::pow(ex, a, b, c); }
    template<typename T1, typename T2> static Units2 units() {
        return Units2{1.0L, 0.5L, 1.0L}; }
    MICRO
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {
        if(rng.chance(10)) return T2(rng.range(25, 1100));
        if(rng.chance(30)) return T2(rng.range(-9, 9)) / T2(2);
        return T2(rng.range(-4, 4)); }
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2 b) {
        if(std::abs(b) > T2(5)) {
            return rng.chance(50) ? T1(10) : T1(2); }
        if(b != std::floor(b)) {
            return T1(std::vector<int>{0, 1, 4, 9, -4, -1}[
                rng.range(0, 5)]); }
        return T1(rng.range(-6, 6)); }
    template<typename A, typename B> static bool plain(A a, B b) {
        return a > A(0) && std::abs(b) <= B(5); }
};

// Any two of its arguments go together.
struct PowSmall: Pow
{
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {
        return T2(rng.range(-8, 8)) / T2(2); }
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2) {
        return T1(std::vector<int>{0, 1, 4, 9, -4, -1}[rng.range(0, 5)]); }
};

// Which cells have a value.
template<typename T, typename RT, int D>
void defined(Rng& rng)
{
    Shape s = shape(rng, D);
    Input<T, D> a(rng, s, false, [&](size_t) { return T(rng.range(0, 3)); });
    Output<RT, D> output(rng, s, true);
    auto execution = local::execution(rng);
    Json head;
    head.s("op", "defined");
    a.write(head, '1', 0.125L, false, Enc1<void, T>());
    head.i("d1", D).i("rows", s.rows).i("cols", s.cols)
        .s("ex", execution.name).b("chk", true).b("big", false)
        .s("i1", name(a.mode)).b("inpl", false);
    ev::begin(head);
    fa::InputNoDataPolicies<decltype(a.policy())> in{a.policy()};
    if constexpr(D == 1) {
        with_policy(execution.policy, [&](auto& policy) {
            fa::algebra::defined(in, policy, output.store->values()); });
    }
    else {
        fa::algebra::defined(in, execution.policy, output.store->values());
    }
    output.write(head, 1.0L, false, EncR<void, RT>());
    head.b("same", a.unchanged());
    ev::end(head);
}

} // namespace
