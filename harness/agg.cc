// Records the aggregating operations. Compile with -DGROUP=<0..3>.
#include "local.h"
#include "fern/feature/core/masked_scalar.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/feature/core/data_type_traits/masked_scalar.h"
#include "fern/algorithm/statistic/count.h"
#include "fern/algorithm/statistic/mean.h"
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/unary_max.h"
#include "fern/algorithm/statistic/unary_min.h"

using namespace local;

namespace {

template<typename T>
struct Plain
{
    long double unit;
    static constexpr bool large = std::is_integral<T>::value && sizeof(T) >= 4;
    template<typename U>
    static std::string encode(U x, long double unit, bool as_big) {
        return enc_any(x, unit, as_big); }
};

struct MeanOf
{
    static std::string encode(double x, long double, bool) {
        return std::to_string(nearest(x, 0.001L)); }
    static std::string encode(float x, long double, bool) {
        return std::to_string(nearest(x, 0.001L)); }
    template<typename U>
    static std::string encode(U x, long double, bool as_big) {
        return enc_any(x, 1.0L, as_big); }
};

template<typename T, int D> using InP = InPolicy<typename Store<T, D>::C,
    typename Store<T, D>::M>;

Shape any_shape(Rng& rng, int d, bool many)
{
    if(d > 0 && rng.chance(6)) {
        return d == 1 ? Shape{1, 0} : rng.chance(50)
            ? Shape{0, size_t(rng.range(0, 3))}
            : Shape{size_t(rng.range(0, 3)), 0};
    }
    if(d > 0 && many && rng.chance(25)) {
        size_t n = rng.chance(50) ? 256 : rng.range(100, 300);
        return d == 1 ? Shape{1, n} : Shape{8, n / 8};
    }
    return shape(rng, d);
}

// How the values are distributed: small ones, or so that sums leave the range.
enum class Values { small, half, tenth, edge, huge };

template<typename T>
T value(Rng& rng, Values v)
{
    using L = std::numeric_limits<T>;
    if constexpr(std::is_floating_point<T>::value) {
        if(v == Values::huge) {
            return T(rng.range(-3, 3)) * std::ldexp(T(1),
                L::max_exponent - 2);
        }
        return T(rng.range(-800, 800)) / T(8);
    }
    else {
        switch(v) {
            case Values::small: return T(rng.range(
                std::is_signed<T>::value ? -3 : 0, 3));
            case Values::half: return rng.chance(50) ? L::max() / 2
                + T(rng.range(-1, 2)) : std::is_signed<T>::value
                ? L::min() / 2 + T(rng.range(-2, 1)) : T(rng.range(0, 3));
            case Values::tenth: return L::max() / T(rng.range(8, 20)) *
                (std::is_signed<T>::value && rng.chance(50) ? T(-1) : T(1));
            default: return edge_value<T>(rng);
        }
    }
}

template<typename T>
Values values(Rng& rng, bool huge)
{
    if(std::is_floating_point<T>::value) {
        return huge && rng.chance(30) ? Values::huge : Values::small;
    }
    int x = rng.range(0, 9);
    return x < 4 ? Values::small : x < 6 ? Values::half :
        x < 8 ? Values::tenth : Values::edge;
}

template<typename T, int D, bool mean>
void total(Rng& rng)
{
    constexpr bool large = Plain<T>::large;
    Values v = values<T>(rng, !mean);
    bool many = sizeof(T) == 1 && mean;
    Shape s = any_shape(rng, D, many);
    if(s.size() > 40) v = rng.chance(50) ? Values::small : Values::tenth;
    int sparse = rng.chance(50) ? 100 : 10;     // Percentage of non-zeros.
    bool plain = rng.chance(10);
    long double unit = !std::is_floating_point<T>::value ? 1.0L :
        v == Values::huge ? std::ldexp(1.0L,
            std::numeric_limits<T>::max_exponent - 2) : 0.125L;
    Input<T, D> a(rng, s, plain, [&](size_t) {
        return rng.chance(sparse) ? value<T>(rng, v) : T(0); });
    if(v == Values::huge && (a.mode == In::value || a.mode == In::by_value)) {
        return total<T, D, mean>(rng);      // Values that have no unit.
    }
    Output<T, 0> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", mean ? "mean" : "sum").i("rows", s.rows).i("cols", s.cols)
        .s("ex", ex.name).b("big", large).b("chk", !plain)
        .i("bound", v == Values::huge ? 4 : 0);
    a.write(j, '1', unit, large, Plain<T>{});
    j.i("d1", D);
    ev::begin(j);
    auto& in_values = a.store->values();
    auto& result = output.store->values();
    if(plain) {
        if constexpr(mean) fa::statistic::mean(ex.policy, in_values, result);
        else fa::statistic::sum(ex.policy, in_values, result);
    }
    else {
        fa::InputNoDataPolicies<InP<T, D>> in{a.policy()};
        auto out = output.policy();
        if constexpr(mean) {
            fa::statistic::mean<fa::mean::OutOfRangePolicy>(in, out,
                ex.policy, in_values, result);
        }
        else {
            fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, out, ex.policy,
                in_values, result);
        }
    }
    if constexpr(mean) output.write(j, unit, large, MeanOf{});
    else output.write(j, unit, large, Plain<T>{});
    j.b("same", a.unchanged());
    ev::end(j);
}

template<typename T, int D, bool max>
void extreme(Rng& rng)
{
    constexpr bool large = Plain<T>::large;
    Values v = values<T>(rng, false);
    Shape s = any_shape(rng, D, false);
    bool plain = rng.chance(10);
    int infinite = rng.chance(30) ? (rng.chance(50) ? 90 : 10) : 0;
    Input<T, D> a(rng, s, plain, [&](size_t) {
        if constexpr(std::is_floating_point<T>::value) {
            if(rng.chance(infinite)) {
                return rng.chance(infinite) == max
                    ? -std::numeric_limits<T>::infinity()
                    : std::numeric_limits<T>::infinity();
            }
        }
        return value<T>(rng, v); });
    Output<T, 0> output(rng, s, plain);
    auto ex = execution(rng);
    Json j;
    j.s("op", max ? "max" : "min").i("rows", s.rows).i("cols", s.cols)
        .s("ex", ex.name).b("big", large).b("chk", !plain);
    a.write(j, '1', std::is_floating_point<T>::value ? 0.125L : 1.0L, large,
        Plain<T>{});
    j.i("d1", D);
    ev::begin(j);
    auto& in_values = a.store->values();
    auto& result = output.store->values();
    if(plain) {
        if constexpr(max) fa::statistic::unary_max(ex.policy, in_values,
            result);
        else fa::statistic::unary_min(ex.policy, in_values, result);
    }
    else {
        fa::InputNoDataPolicies<InP<T, D>> in{a.policy()};
        auto out = output.policy();
        if constexpr(max) fa::statistic::unary_max(in, out, ex.policy,
            in_values, result);
        else fa::statistic::unary_min(in, out, ex.policy, in_values, result);
    }
    output.write(j, std::is_floating_point<T>::value ? 0.125L : 1.0L, large,
        Plain<T>{});
    j.b("same", a.unchanged());
    ev::end(j);
}

template<typename T, int D, typename R, bool masked_result>
void count(Rng& rng)
{
    Shape s = any_shape(rng, D, false);
    bool plain = rng.chance(10);
    auto gen = [&](size_t) {
        if constexpr(std::is_same<T, bool>::value) return rng.chance(50);
        else return T(rng.range(0, 3)); };
    Input<T, D> a(rng, s, plain, gen);
    T x = gen(0);
    auto ex = execution(rng);
    Json j;
    j.s("op", "count").i("rows", s.rows).i("cols", s.cols).s("ex", ex.name)
        .b("big", false).b("chk", !plain).i("x", x);
    a.write(j, '1', 1.0L, false, Plain<T>{});
    j.i("d1", D);
    ev::begin(j);
    auto& in_values = a.store->values();
    fa::InputNoDataPolicies<InP<T, D>, fa::SkipNoData> in{a.policy(), {}};
    if constexpr(masked_result) {
        bool before = rng.chance(20);
        fern::MaskedScalar<R> result(R(5), before);
        if(plain) {
            fa::statistic::count(ex.policy, in_values, x, result);
        }
        else {
            fa::MarkNoDataByValue<bool> out(result.mask(), true);
            fa::statistic::count(in, out, ex.policy, in_values, x, result);
        }
        j.is("r", std::vector<int64_t>{static_cast<int64_t>(result.value())})
            .bs("rn", std::vector<bool>{result.mask()})
            .bs("p", std::vector<bool>{before}).s("out", plain ? "dont"
                : "mask").s("kr", Kind<R>::name);
    }
    else {
        Output<R, 0> output(rng, s, plain);
        auto& result = output.store->values();
        if(plain) {
            fa::statistic::count(ex.policy, in_values, x, result);
        }
        else {
            auto out = output.policy();
            fa::statistic::count(in, out, ex.policy, in_values, x, result);
        }
        output.write(j, 1.0L, false, Plain<R>{});
    }
    j.b("same", a.unchanged());
    ev::end(j);
}

template<typename T>
void totals(std::vector<ev::Kind>& k)
{
    k.insert(k.end(), {total<T, 0, false>, total<T, 1, false>,
        total<T, 2, false>, total<T, 0, true>, total<T, 1, true>,
        total<T, 2, true>, total<T, 1, false>, total<T, 2, true>});
}

template<typename T>
void extremes(std::vector<ev::Kind>& k)
{
    k.insert(k.end(), {extreme<T, 0, false>, extreme<T, 1, false>,
        extreme<T, 2, false>, extreme<T, 0, true>, extreme<T, 1, true>,
        extreme<T, 2, true>});
}

} // namespace

int main(int argc, char** argv)
{
    auto& k = ev::kinds();
#if GROUP == 0
    totals<int8_t>(k);
    totals<uint8_t>(k);
    totals<int16_t>(k);
    totals<float>(k);
#elif GROUP == 1
    totals<int32_t>(k);
    totals<uint32_t>(k);
    totals<int64_t>(k);
    totals<uint64_t>(k);
    totals<double>(k);
#elif GROUP == 2
    extremes<int8_t>(k);
    extremes<uint8_t>(k);
    extremes<int32_t>(k);
    extremes<int64_t>(k);
    extremes<float>(k);
    extremes<double>(k);
#else
    k = {count<int32_t, 0, int32_t, false>, count<uint8_t, 1, int32_t, false>,
        count<int16_t, 2, int64_t, false>, count<double, 1, int32_t, true>,
        count<int32_t, 2, int32_t, true>, count<bool, 1, int32_t, false>,
        count<float, 2, int32_t, false>};
#endif
    return ev::main(argc, argv);
}
