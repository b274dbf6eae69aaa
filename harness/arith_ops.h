// The arithmetic operations.
#pragma once
#include "local.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/divide.h"
#include "fern/algorithm/algebra/elementary/absolute.h"

using namespace local;

namespace {


// Huge values: multiples of 2^1020 (2^124); 15 of them are representable, 16
// are not.
template<typename T>
constexpr int huge_exponent() { return std::is_same<T, float>::value ? 124 : 1020; }

template<typename T>
T close_to(Rng& rng, long double x)
{
    // An integer near x, if possible.
    using L = std::numeric_limits<T>;
    long double y = std::floor(x) + rng.range(-2, 2);
    if(y > static_cast<long double>(L::max())) return L::max();
    if(y < static_cast<long double>(L::min())) return L::min();
    return static_cast<T>(y);
}

template<typename T1, typename T2>
using Result = typename fa::Result<T1, T2>::type;

template<typename T>
constexpr bool floating = std::is_floating_point<T>::value;

template<typename R>
long double limit(Rng& rng)
{
    return rng.chance(50)
        ? static_cast<long double>(std::numeric_limits<R>::max())
        : static_cast<long double>(std::numeric_limits<R>::min());
}

#define TWO(NAME, CHECKED)                                                  \
    template<typename T1, typename T2> using R = Result<T1, T2>;            \
    static constexpr bool has_simple = true;                                \
    template<typename I, typename O, typename A, typename B, typename C>    \
    static void checked(I const& in, O& out, fa::ExecutionPolicy& ex,       \
        A const& a, B const& b, C& c) {                                     \
        fa::algebra::CHECKED(in, out, ex, a, b, c); }                       \
    template<typename A, typename B, typename C>                            \
    static void simple(fa::ExecutionPolicy& ex, A const& a, B const& b,     \
        C& c) { fa::algebra::NAME(ex, a, b, c); }

// Arguments are values of the result's type: the operations convert them.
template<typename R, typename T> T fit(T x)
{
    if constexpr(std::is_same<T, uint64_t>::value && std::is_signed<R>::value
        && std::is_integral<R>::value) return x > INT64_MAX
            ? x - (uint64_t(1) << 63) : x;
    return x;
}

struct Add
{
    static constexpr char const* name = "add";
    static constexpr int bound = 0;
    static constexpr bool may_be_large = false;
    TWO(add, add<fa::add::OutOfRangePolicy>)
    template<typename T1, typename T2> static Units2 units() {
        return Units2{0.125L, 0.125L, 0.125L}; }
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {
        if constexpr(floating<R<T1, T2>> && !floating<T2>) {
            return T2(std::is_signed<T2>::value ? rng.range(-100, 100) :
                rng.range(0, 200)); }
        else return fit<R<T1, T2>>(edge_value<T2>(rng));
    }
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2 b) {
        if constexpr(floating<R<T1, T2>> && !floating<T1>) {
            return T1(std::is_signed<T1>::value ? rng.range(-100, 100) :
                rng.range(0, 200)); }
        else if constexpr(!floating<T1>) {
            if(rng.chance(40)) return fit<R<T1, T2>>(close_to<T1>(rng,
                limit<R<T1, T2>>(rng) - b));
        }
        return fit<R<T1, T2>>(edge_value<T1>(rng));
    }
    template<typename A, typename B> static bool plain(A a, B b) {
        using C = R<A, B>;
        if constexpr(floating<C>) return true;
        else { C c; return !__builtin_add_overflow(a, b, &c); }
    }
};

struct Subtract
{
    static constexpr char const* name = "subtract";
    static constexpr int bound = 0;
    static constexpr bool may_be_large = false;
    TWO(subtract, subtract<fa::subtract::OutOfRangePolicy>)
    template<typename T1, typename T2> static Units2 units() {
        return Units2{0.125L, 0.125L, 0.125L}; }
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {
        return Add::gen2<T1, T2>(rng); }
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2 b) {
        if constexpr(!floating<T1> && !floating<T2>) {
            if(rng.chance(40)) return fit<R<T1, T2>>(close_to<T1>(
                rng, limit<R<T1, T2>>(rng) + b));
        }
        return Add::gen1<T1, T2>(rng, b);
    }
    template<typename A, typename B> static bool plain(A a, B b) {
        using C = R<A, B>;
        if constexpr(floating<C>) return true;
        else { C c; return !__builtin_sub_overflow(a, b, &c); }
    }
};

struct Multiply
{
    static constexpr char const* name = "multiply";
    static constexpr int bound = 0;
    static constexpr bool may_be_large = true;
    TWO(multiply, multiply<fa::multiply::OutOfRangePolicy>)
    template<typename T1, typename T2> static Units2 units() {
        return Units2{0.125L, 0.125L, 0.015625L}; }
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {
        return Add::gen2<T1, T2>(rng); }
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2 b) {
        if constexpr(!floating<T1> && !floating<T2>) {
            if(b != 0 && rng.chance(50)) return fit<R<T1, T2>>(
                close_to<T1>(rng, limit<R<T1, T2>>(rng) / b));
        }
        return Add::gen1<T1, T2>(rng, b);
    }
    template<typename A, typename B> static bool plain(A a, B b) {
        using C = R<A, B>;
        if constexpr(floating<C>) return true;
        else { C c; return !__builtin_mul_overflow(a, b, &c); }
    }
};

// Division of floats is exact: divisors are powers of two.
struct Divide
{
    static constexpr char const* name = "divide";
    static constexpr int bound = 0;
    static constexpr bool may_be_large = false;
    static constexpr bool has_simple = true;
    template<typename T1, typename T2> using R = Result<T1, T2>;
    template<typename I, typename O, typename A, typename B, typename C>
    static void checked(I const& in, O& out, fa::ExecutionPolicy& ex,
        A const& a, B const& b, C& c) {
        fa::algebra::divide<fa::divide::OutOfDomainPolicy,
            fa::divide::OutOfRangePolicy>(in, out, ex, a, b, c); }
    template<typename A, typename B, typename C>
    static void simple(fa::ExecutionPolicy& ex, A const& a, B const& b,
        C& c) { fa::algebra::divide(ex, a, b, c); }
    template<typename T1, typename T2> static Units2 units() {
        return Units2{1.0L / 512, 0.125L, 1.0L / 64}; }
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {
        if(rng.chance(10)) return T2(0);
        if constexpr(floating<R<T1, T2>>) {
            T2 x = T2(1 << rng.range(0, 3));
            if(floating<T2> && rng.chance(50)) x = T2(1) / x;
            if(std::is_signed<T2>::value && rng.chance(50)) x = T2(-x);
            return x;
        }
        else {
            return rng.chance(50)
                ? T2(rng.range(std::is_signed<T2>::value ? -3 : 0, 3))
                : fit<R<T1, T2>>(edge_value<T2>(rng));
        }
    }
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2 b) {
        return Add::gen1<T1, T2>(rng, b); }
    template<typename A, typename B> static bool plain(A a, B b) {
        using C = R<A, B>;
        if(b == 0) return false;
        if constexpr(!floating<C>) {
            if(C(b) == C(-1) && C(a) == std::numeric_limits<C>::min()) {
                return false;
            }
        }
        return true;
    }
};

template<typename T> T unit(int e) { return std::ldexp(T(1), e); }

// Floats near the limits of their range.
template<typename Op>
struct Huge: Op
{
    static constexpr int bound = 15;
    static constexpr bool has_simple = false;
    static constexpr char const* name = Op::name;
    template<typename T1, typename T2> static Units2 units() {
        using C = typename Op::template R<T1, T2>;
        int e = huge_exponent<C>();
        bool mul = std::is_same<Op, Multiply>::value;
        bool div = std::is_same<Op, Divide>::value;
        if(div) return Units2{std::ldexp(1.0L, e - 8), 1.0L / 256,
            std::ldexp(1.0L, e)};
        if(mul) return Units2{std::ldexp(1.0L, e / 2),
            std::ldexp(1.0L, e / 2), std::ldexp(1.0L, e)};
        return Units2{std::ldexp(1.0L, e), std::ldexp(1.0L, e),
            std::ldexp(1.0L, e)};
    }
    template<typename T1, typename T2> static T2 gen2(Rng& rng) {
        auto u = units<T1, T2>();
        if(std::is_same<Op, Divide>::value) {
            T2 x = unit<T2>(-static_cast<int>(rng.range(0, 8)));
            if(rng.chance(50)) x = -x;
            return rng.chance(10) ? T2(0) : x;
        }
        return T2(rng.range(-15, 15)) * T2(u.u2);
    }
    template<typename T1, typename T2> static T1 gen1(Rng& rng, T2) {
        auto u = units<T1, T2>();
        if(std::is_same<Op, Divide>::value) {
            return T1(256 * rng.range(-15, 15)) * T1(u.u1);
        }
        return T1(rng.range(-15, 15)) * T1(u.u1);
    }
    template<typename A, typename B> static bool plain(A, B) { return false; }
};

struct Absolute
{
    static constexpr char const* name = "absolute";
    static constexpr bool has_simple = true;
    template<typename T> using R = T;
    template<typename T> static Units1 units() { return Units1{0.125L, 0.125L}; }
    template<typename T> static T gen(Rng& rng) { return edge_value<T>(rng); }
    template<typename T> static bool plain(T x) {
        return !(std::is_integral<T>::value && std::is_signed<T>::value &&
            x == std::numeric_limits<T>::min()); }
    template<typename I, typename O, typename A, typename C>
    static void checked(I const& in, O& out, fa::ExecutionPolicy& ex,
        A const& a, C& c) {
        fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(in, out, ex, a,
            c); }
    template<typename A, typename C>
    static void simple(fa::ExecutionPolicy& ex, A const& a, C& c) {
        fa::algebra::absolute(ex, a, c); }
};

} // namespace
