// Records the algorithms that move, select or mark values.
// Compile with -DGROUP=<0..5>.
#include "local.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/core/point.h"
#include "fern/algorithm/core/data_type_traits/index_ranges.h"
#include "fern/algorithm/core/cast.h"
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/cover.h"
#include "fern/algorithm/core/decompress.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/intersect_no_data.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/offset.h"
#include "fern/algorithm/core/unite_no_data.h"

using namespace local;

namespace {

struct Plain
{
    template<typename T>
    static std::string encode(T x, long double, bool) {
        return std::to_string(enc(x, 1.0L)); }
};

template<typename T> T number(Rng& rng)
{
    if constexpr(std::is_same<T, bool>::value) return rng.chance(50);
    else if constexpr(std::is_unsigned<T>::value) return T(rng.range(0, 40));
    else return T(rng.range(-40, 40));
}

template<typename T> T condition(Rng& rng)
{
    if constexpr(std::is_same<T, bool>::value) return rng.chance(50);
    else return T(rng.chance(50) ? 0 : rng.chance(70) ? 1 :
        std::is_unsigned<T>::value ? 2 : -2);
}

template<typename I> void put_input(Json& j, char k, int d, I const& in)
{
    in.write(j, k, 1.0L, false, Plain{});
    j.i((std::string("d") + k).c_str(), d);
}

Shape any_shape(Rng& rng, int d)
{
    if(d > 0 && rng.chance(4)) {
        // Empty
        return d == 1 ? Shape{1, 0} : rng.chance(50)
            ? Shape{0, size_t(rng.range(0, 3))}
            : Shape{size_t(rng.range(0, 3)), 0};
    }
    return shape(rng, d);
}

template<typename O>
void finish(Json& j, O& output, bool same)
{
    output.write(j, 1.0L, false, Plain{});
    j.b("same", same);
    ev::end(j);
}

template<typename T, int D> using InP = InPolicy<typename Store<T, D>::C,
    typename Store<T, D>::M>;

// if, two and three arguments ----------------------------------------------------
template<typename B, typename T, int D1, int D2>
void if_then(Rng& rng)
{
    constexpr int D = D1 > D2 ? D1 : D2;
    Shape s = any_shape(rng, D);
    bool plain = false;
    Input<B, D1> c(rng, s, plain, [&](size_t) { return condition<B>(rng); });
    Input<T, D2> t(rng, s, plain, [&](size_t) { return number<T>(rng); });
    Output<T, D> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", "if").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name);
    put_input(j, '1', D1, c);
    put_input(j, '2', D2, t);
    ev::begin(j);
    fa::InputNoDataPolicies<InP<B, D1>, InP<T, D2>> in{c.policy(), t.policy()};
    auto out = output.policy();
    fa::core::if_(in, out, ex.policy, c.store->values(), t.store->values(),
        output.store->values());
    finish(j, output, c.unchanged() && t.unchanged());
}

template<typename B, typename T, int D1, int D2, int D3>
void if_then_else(Rng& rng)
{
    constexpr int D = std::max(D1, std::max(D2, D3));
    Shape s = any_shape(rng, D);
    bool plain = rng.chance(10);
    Input<B, D1> c(rng, s, plain, [&](size_t) { return condition<B>(rng); });
    Input<T, D2> t(rng, s, plain, [&](size_t) { return number<T>(rng); });
    Input<T, D3> f(rng, s, plain, [&](size_t) { return number<T>(rng); });
    Output<T, D> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", "if_else").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name);
    put_input(j, '1', D1, c);
    put_input(j, '2', D2, t);
    put_input(j, '3', D3, f);
    ev::begin(j);
    if(plain) {
        fa::core::if_(ex.policy, c.store->values(), t.store->values(),
            f.store->values(), output.store->values());
    }
    else {
        fa::InputNoDataPolicies<InP<B, D1>, InP<T, D2>, InP<T, D3>> in{
            c.policy(), t.policy(), f.policy()};
        auto out = output.policy();
        fa::core::if_(in, out, ex.policy, c.store->values(),
            t.store->values(), f.store->values(), output.store->values());
    }
    finish(j, output, c.unchanged() && t.unchanged() && f.unchanged());
}

// cover, unite, intersect, merge ----------------------------------------------------
template<typename T, int D1, int D2>
void cover(Rng& rng)
{
    constexpr int D = D1 > D2 ? D1 : D2;
    Shape s = any_shape(rng, D);
    bool plain = rng.chance(10);
    Input<T, D1> a(rng, s, plain, [&](size_t) { return number<T>(rng); });
    Input<T, D2> b(rng, s, plain, [&](size_t) { return number<T>(rng); });
    Output<T, D> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", "cover").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name);
    put_input(j, '1', D1, a);
    put_input(j, '2', D2, b);
    ev::begin(j);
    if(plain) {
        fa::core::cover(ex.policy, a.store->values(), b.store->values(),
            output.store->values());
    }
    else {
        fa::InputNoDataPolicies<InP<T, D1>, InP<T, D2>> in{
            a.policy(), b.policy()};
        auto out = output.policy();
        fa::core::cover(in, out, ex.policy, a.store->values(),
            b.store->values(), output.store->values());
    }
    finish(j, output, a.unchanged() && b.unchanged());
}

template<typename T1, typename T2, typename T, int D, bool unite>
void combine(Rng& rng)
{
    Shape s = any_shape(rng, D);
    Input<T1, D> a(rng, s, false, [&](size_t) { return number<T1>(rng); });
    Input<T2, D> b(rng, s, false, [&](size_t) { return number<T2>(rng); });
    Output<T, D> output(rng, s, false);
    std::vector<T> before;
    for(size_t i = 0; i < Store<T, D>::size(s); ++i) {
        before.push_back(output.store->at(i));
    }
    auto ex = execution(rng);
    Json j;
    j.s("op", unite ? "unite" : "intersect").i("rows", s.rows)
        .i("cols", s.cols).s("ex", ex.name).is("before", before);
    put_input(j, '1', D, a);
    put_input(j, '2', D, b);
    ev::begin(j);
    fa::InputNoDataPolicies<InP<T1, D>, InP<T2, D>> in{a.policy(), b.policy()};
    auto out = output.policy();
    if(unite) {
        fa::core::unite_no_data(in, out, ex.policy, a.store->values(),
            b.store->values(), output.store->values());
    }
    else {
        fa::core::intersect_no_data(in, out, ex.policy, a.store->values(),
            b.store->values(), output.store->values());
    }
    finish(j, output, a.unchanged() && b.unchanged());
}

template<typename T1, typename T, int D>
void merge(Rng& rng)
{
    Shape s = any_shape(rng, D);
    Input<T1, D> a(rng, s, false, [&](size_t) { return number<T1>(rng); });
    Output<T, D> output(rng, s, false);
    std::vector<T> before;
    for(size_t i = 0; i < Store<T, D>::size(s); ++i) {
        before.push_back(output.store->at(i));
    }
    auto ex = execution(rng);
    Json j;
    j.s("op", "merge").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name)
        .is("before", before);
    put_input(j, '1', D, a);
    ev::begin(j);
    fa::InputNoDataPolicies<InP<T1, D>> in{a.policy()};
    auto out = output.policy();
    fa::core::merge_no_data(in, out, ex.policy, a.store->values(),
        output.store->values());
    finish(j, output, a.unchanged());
}

// clamp, cast, fill -----------------------------------------------------------------
// The bounds must not contain no-data.
template<typename T, int D1, int D2, int D3>
void clamp(Rng& rng)
{
    constexpr int D = D1;
    Shape s = any_shape(rng, D);
    bool plain = rng.chance(10);
    Input<T, D1> a(rng, s, plain, [&](size_t) { return number<T>(rng); });
    size_t n = std::max<size_t>(1, s.size());
    T top = T(40), bottom = std::is_unsigned<T>::value ? T(0) : T(-40);
    T middle = T(rng.range(bottom, top));
    std::vector<T> lo(n), hi(n);
    for(size_t i = 0; i < n; ++i) {
        // The scalar bound is one side of the middle.
        T m = D2 == 0 || D3 == 0 ? middle : T(rng.range(bottom, top));
        lo[i] = D2 == 0 && i > 0 ? lo[0] : T(rng.range(bottom, m));
        hi[i] = D3 == 0 && i > 0 ? hi[0] : T(rng.range(m, top));
        if(rng.chance(10) && D2 != 0 && D3 != 0) hi[i] = lo[i];
    }
    Input<T, D2> b(rng, s, true, [&](size_t i) { return lo[i]; });
    Input<T, D3> c(rng, s, true, [&](size_t i) { return hi[i]; });
    Output<T, D> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", "clamp").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name);
    put_input(j, '1', D1, a);
    put_input(j, '2', D2, b);
    put_input(j, '3', D3, c);
    ev::begin(j);
    if(plain) {
        fa::core::clamp(ex.policy, a.store->values(), b.store->values(),
            c.store->values(), output.store->values());
    }
    else {
        fa::InputNoDataPolicies<InP<T, D1>, fa::SkipNoData, fa::SkipNoData>
            in{a.policy(), {}, {}};
        auto out = output.policy();
        fa::core::clamp(in, out, ex.policy, a.store->values(),
            b.store->values(), c.store->values(), output.store->values());
    }
    finish(j, output, a.unchanged() && b.unchanged() && c.unchanged());
}

template<typename T, typename R, int D>
void cast(Rng& rng)
{
    Shape s = any_shape(rng, D);
    bool plain = rng.chance(10);
    constexpr bool fraction = std::is_floating_point<T>::value &&
        std::is_floating_point<R>::value;
    Input<T, D> a(rng, s, plain, [&](size_t) {
        if constexpr(std::is_floating_point<T>::value) {
            return T(std::is_unsigned<R>::value ? rng.range(0, 800)
                : rng.range(-800, 800)) / T(8);
        }
        else if constexpr(std::is_same<T, bool>::value) {
            return rng.chance(50);
        }
        else {
            // Something both can represent.
            int64_t lo = std::is_unsigned<T>::value ||
                std::is_unsigned<R>::value ? 0 : -120;
            return T(rng.range(lo, 120));
        } });
    Output<R, D> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", "cast").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name)
        .b("tof", std::is_floating_point<R>::value)
        .b("tob", std::is_same<R, bool>::value);
    a.write(j, '1', std::is_floating_point<T>::value ? 0.125L : 1.0L, false,
        Enc1<Plain, T>{});
    j.i("d1", D).b("fromf", std::is_floating_point<T>::value);
    ev::begin(j);
    if(plain) {
        fa::core::cast(ex.policy, a.store->values(), output.store->values());
    }
    else {
        fa::InputNoDataPolicies<InP<T, D>> in{a.policy()};
        auto out = output.policy();
        if constexpr(!std::is_floating_point<T>::value &&
                std::is_signed<T>::value == std::is_signed<R>::value &&
                std::is_integral<R>::value && sizeof(T) <= sizeof(R) &&
                !std::is_same<R, bool>::value) {
            fa::core::cast<fa::cast::OutOfRangePolicy>(in, out, ex.policy,
                a.store->values(), output.store->values());
        }
        else {
            fa::core::cast<fa::unary::DiscardRangeErrors>(in, out, ex.policy,
                a.store->values(), output.store->values());
        }
    }
    output.write(j, fraction ? 0.125L : 1.0L, false, Enc1<Plain, R>{});
    j.b("same", a.unchanged());
    ev::end(j);
}

template<typename T, int D>
void fill(Rng& rng)
{
    Shape s = any_shape(rng, D);
    bool plain = rng.chance(30);
    Input<T, 0> a(rng, s, plain, [&](size_t) { return number<T>(rng); });
    Output<T, D> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", "fill").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name);
    put_input(j, '1', 0, a);
    ev::begin(j);
    with_policy(ex.policy, [&](auto& policy) {
        if(plain) {
            fa::core::fill(policy, a.store->values(),
                output.store->values());
        }
        else {
            fa::InputNoDataPolicies<InP<T, 0>> in{a.policy()};
            auto out = output.policy();
            fa::core::fill(in, out, policy, a.store->values(),
                output.store->values());
        }
    });
    finish(j, output, a.unchanged());
}

// compress, decompress, copy, offset ----------------------------------------------------
template<typename T, int D>
void compress(Rng& rng)
{
    Shape s = any_shape(rng, D);
    bool plain = rng.chance(10);
    Input<T, D> a(rng, s, plain, [&](size_t) { return number<T>(rng); });
    size_t n = s.size();
    std::vector<T> target(n);
    Store<T, 1> result(Shape{1, n});
    for(size_t i = 0; i < n; ++i) result.at(i) = T(77);
    int64_t count = -1;
    auto ex = execution(rng);
    Json j;
    j.s("op", "compress").i("rows", s.rows).i("cols", s.cols)
        .s("ex", ex.name);
    put_input(j, '1', D, a);
    ev::begin(j);
    size_t c = 12345;
    if(plain) {
        fa::core::compress(ex.policy, a.store->values(), result.values(), c);
    }
    else {
        fa::InputNoDataPolicies<InP<T, D>> in{a.policy()};
        fa::core::compress(in, ex.policy, a.store->values(), result.values(),
            c);
    }
    count = static_cast<int64_t>(c);
    std::vector<int64_t> r;
    for(size_t i = 0; i < n; ++i) r.push_back(enc(result.at(i), 1.0L));
    j.is("r", r).i("count", count).b("same", a.unchanged());
    ev::end(j);
}

template<typename T, int D>
void decompress(Rng& rng)
{
    Shape s = any_shape(rng, D);
    size_t n = s.size();
    bool plain = rng.chance(10);
    Input<T, D> m(rng, s, plain, [&](size_t) { return T(0); });
    Input<T, 1> a(rng, Shape{1, n}, true, [&](size_t) {
        return number<T>(rng); });
    Output<T, D> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", "decompress").i("rows", s.rows).i("cols", s.cols)
        .s("ex", ex.name);
    put_input(j, '1', D, m);
    put_input(j, '2', 1, a);
    ev::begin(j);
    if(plain) {
        fa::core::decompress(ex.policy, a.store->values(),
            output.store->values());
    }
    else {
        fa::InputNoDataPolicies<InP<T, D>> in{m.policy()};
        auto out = output.policy();
        fa::core::decompress(in, out, ex.policy, a.store->values(),
            output.store->values());
    }
    finish(j, output, a.unchanged());
}

template<typename T>
void copy(Rng& rng)
{
    Shape s = any_shape(rng, 1);
    size_t n = s.size();
    bool plain = rng.chance(10);
    Input<T, 1> a(rng, s, plain, [&](size_t) { return number<T>(rng); });
    Output<T, 1> output(rng, s, plain);
    std::vector<T> before;
    for(size_t i = 0; i < n; ++i) before.push_back(output.store->at(i));
    size_t from = rng.range(0, n), size = rng.range(0, n - from);
    if(rng.chance(15)) from = 0, size = n;
    size_t to = rng.range(0, n - size);
    auto ex = execution(rng);
    Json j;
    j.s("op", "copy").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name)
        .i("from", from).i("size", size).i("to", to).is("before", before);
    put_input(j, '1', 1, a);
    ev::begin(j);
    fa::IndexRanges<1> range{fa::IndexRange(from, from + size)};
    fern::Point<size_t, 1> position(to);
    if(plain) {
        fa::core::copy(ex.policy, a.store->values(), range,
            output.store->values(), position);
    }
    else {
        fa::InputNoDataPolicies<InP<T, 1>> in{a.policy()};
        auto out = output.policy();
        fa::core::copy(in, out, ex.policy, a.store->values(), range,
            output.store->values(), position);
    }
    finish(j, output, a.unchanged());
}

template<typename T, int D, bool with_fill>
void offset(Rng& rng)
{
    Shape s = any_shape(rng, D);
    bool plain = rng.chance(10);
    Input<T, D> a(rng, s, plain, [&](size_t) { return number<T>(rng); });
    Output<T, D> output(rng, s, plain);
    std::vector<T> before;
    for(size_t i = 0; i < s.size(); ++i) {
        before.push_back(output.store->at(i));
    }
    auto pick = [&](size_t n) -> int {
        int k = static_cast<int>(n);
        return rng.chance(20) ? 0 : rng.chance(80) ? rng.range(-k, k)
            : rng.range(-2 * k - 3, 2 * k + 3);
    };
    int o1 = pick(D == 1 ? s.size() : s.rows), o2 = D == 1 ? 0 : pick(s.cols);
    T filler = number<T>(rng);
    auto ex = execution(rng);
    Json j;
    j.s("op", "offset").i("rows", D == 1 ? 1 : s.rows)
        .i("cols", D == 1 ? s.size() : s.cols).s("ex", ex.name)
        .i("o1", D == 1 ? 0 : o1).i("o2", D == 1 ? o1 : o2)
        .b("filled", with_fill).i("fill", filler).is("before", before)
        .b("plain", plain);
    put_input(j, '1', D, a);
    ev::begin(j);
    fern::Point<int, D> offset_;
    offset_[0] = o1;
    if constexpr(D == 2) offset_[1] = o2;
    auto& values = a.store->values();
    auto& result = output.store->values();
    if constexpr(with_fill) {
        if(plain) {
            fa::core::offset(ex.policy, values, offset_, filler, result);
        }
        else {
            fa::InputNoDataPolicies<InP<T, D>> in{a.policy()};
            auto out = output.policy();
            fa::core::offset(in, out, ex.policy, values, offset_, filler,
                result);
        }
    }
    else {
        if(plain) {
            fa::core::offset(ex.policy, values, offset_, result);
        }
        else {
            fa::InputNoDataPolicies<InP<T, D>> in{a.policy()};
            auto out = output.policy();
            fa::core::offset(in, out, ex.policy, values, offset_, result);
        }
    }
    finish(j, output, a.unchanged());
}

} // namespace

int main(int argc, char** argv)
{
    auto& k = ev::kinds();
#if GROUP == 0
    k = {
        if_then<uint8_t, int32_t, 0, 0>, if_then<uint8_t, double, 0, 2>,
        if_then<int16_t, int16_t, 2, 0>, if_then<int32_t, double, 2, 2>,
        if_then_else<int8_t, int32_t, 0, 0, 0>,
        if_then_else<uint8_t, int16_t, 1, 0, 0>,
        if_then_else<int8_t, double, 1, 1, 0>,
        if_then_else<int32_t, uint8_t, 1, 0, 1>,
        if_then_else<int8_t, int32_t, 1, 1, 1>,
        if_then_else<uint8_t, int16_t, 2, 0, 0>,
        if_then_else<int8_t, double, 0, 2, 0>,
        if_then_else<int8_t, int32_t, 0, 0, 2>,
        if_then_else<int16_t, float, 0, 2, 2>,
        if_then_else<int8_t, uint8_t, 2, 2, 2>,
        if_then_else<double, int32_t, 2, 2, 0>,
        if_then_else<int8_t, int16_t, 2, 0, 2>};
#elif GROUP == 1
    k = {
        cover<int32_t, 0, 0>, cover<double, 2, 0>, cover<uint8_t, 2, 2>,
        cover<int16_t, 2, 0>, cover<float, 2, 2>};
#elif GROUP == 5
    k = {
        combine<int32_t, uint8_t, int16_t, 0, true>,
        combine<int32_t, uint8_t, int16_t, 2, true>,
        combine<double, int16_t, int32_t, 0, false>,
        combine<double, int16_t, int32_t, 2, false>,
        merge<int32_t, uint8_t, 0>, merge<uint8_t, int16_t, 2>};
#elif GROUP == 2
    k = {
        clamp<int32_t, 0, 0, 0>, clamp<int16_t, 1, 1, 1>,
        clamp<double, 1, 1, 0>, clamp<uint8_t, 1, 0, 1>,
        clamp<int32_t, 2, 2, 2>, clamp<float, 2, 2, 0>,
        clamp<int16_t, 2, 0, 2>,
        fill<int32_t, 1>, fill<double, 2>, fill<uint8_t, 1>,
        fill<int16_t, 2>, fill<int32_t, 0>};
#elif GROUP == 3
    k = {
        cast<int32_t, double, 0>, cast<double, int32_t, 1>,
        cast<double, uint8_t, 2>, cast<int8_t, int32_t, 1>,
        cast<uint8_t, uint16_t, 2>, cast<float, double, 1>,
        cast<int16_t, uint8_t, 1>, cast<uint8_t, float, 1>,
        cast<bool, int32_t, 1>, cast<double, float, 2>,
        cast<int64_t, int16_t, 0>, cast<uint32_t, int8_t, 1>,
        cast<bool, double, 2>};
#else
    k = {
        compress<int32_t, 1>, compress<double, 2>, compress<uint8_t, 1>,
        decompress<int32_t, 1>, decompress<uint8_t, 2>,
        copy<int32_t>, copy<double>,
        offset<int32_t, 1, false>, offset<double, 1, true>,
        offset<int16_t, 2, false>, offset<float, 2, true>};
#endif
    return ev::main(argc, argv);
}
