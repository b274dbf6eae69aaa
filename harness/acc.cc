// Records programs over three accumulators. Compile with -DGROUP=<0..2>.
#include "local.h"
#include "fern/algorithm/accumulator/count.h"
#include "fern/algorithm/accumulator/max.h"
#include "fern/algorithm/accumulator/mean.h"
#include "fern/algorithm/accumulator/median.h"
#include "fern/algorithm/accumulator/min.h"
#include "fern/algorithm/accumulator/mode.h"
#include "fern/algorithm/accumulator/range.h"
#include "fern/algorithm/accumulator/standard_deviation.h"
#include "fern/algorithm/accumulator/sum.h"
#include "fern/algorithm/accumulator/variance.h"
#include "fern/algorithm/statistic/sum.h"
#include <array>

using namespace local;
namespace acc = fa::accumulator;

namespace {

enum class What { sum, count, mean, max, min, range, median, mode, variance,
    deviation };

template<What, typename A, typename R> struct Make;
#define MAKE(what, Name) template<typename A, typename R> \
    struct Make<What::what, A, R> { using type = acc::Name<A, R>; \
        static constexpr char const* name = #what; };
MAKE(sum, Sum) MAKE(count, Count) MAKE(mean, Mean) MAKE(max, Max)
MAKE(min, Min) MAKE(range, Range) MAKE(median, Median) MAKE(mode, Mode)
MAKE(variance, Variance) MAKE(deviation, StandardDeviation)
#undef MAKE

using Wide = __int128;

// What the total must fit in, if that is not checked.
template<typename R>
bool fits(Wide x)
{
    if constexpr(std::is_floating_point<R>::value) return true;
    else return x >= Wide(std::numeric_limits<R>::min()) &&
        x <= Wide(std::numeric_limits<R>::max());
}

template<What what, typename A, typename R>
void program(Rng& rng)
{
    using Acc = typename Make<what, A, R>::type;
    using L = std::numeric_limits<A>;
    constexpr bool spread = what == What::variance || what == What::deviation;
    constexpr bool totals = what == What::sum || what == What::mean;
    constexpr bool counts = what == What::count;
    constexpr bool checked = totals || (counts &&
        std::is_same<typename fa::Result<R, A>::type, R>::value);
    constexpr bool as_big = !spread && ((std::is_integral<A>::value &&
        sizeof(A) >= 4) || (std::is_integral<R>::value && sizeof(R) >= 4));
    constexpr bool fp = std::is_floating_point<A>::value;
    long double const unit = fp ? (spread ? 0.5L : 0.125L) : 1.0L;

    int const size = rng.range(0, 3);
    auto value = [&]() -> A {
        if constexpr(fp) {
            return spread ? A(rng.range(-20, 20)) / 2 :
                A(size == 0 ? rng.range(-2, 2) : rng.range(-800, 800)) / 8;
        }
        else if constexpr(spread || what == What::mode) {
            return A(rng.range(L::is_signed ? -4 : 0, 4));
        }
        else {
            if(size == 0) return A(rng.range(L::is_signed ? -2 : 0, 2));
            if(size == 1) return L::max() / A(rng.range(3, 20)) *
                (L::is_signed && rng.chance(50) ? A(-1) : A(1));
            return edge_value<A>(rng);
        }
    };

    std::array<Acc, 3> accs;
    struct Shadow { Wide total{0}; Wide n{0}; bool valid{true}; };
    std::array<Shadow, 3> shadows;
    std::array<std::pair<Wide, Wide>, 3> bounds;    // Of values, for range.
    bounds.fill({1, 0});
    std::vector<std::string> steps;

    auto wide = [](A x) { return fp ? Wide(0) : Wide(x); };
    auto join = [](std::pair<Wide, Wide> a, std::pair<Wide, Wide> b) {
        if(a.first > a.second) return b;
        if(b.first > b.second) return a;
        return std::make_pair(std::min(a.first, b.first),
            std::max(a.second, b.second)); };
    auto ok_for = [&](Shadow const& s) {
        return (!totals || fits<R>(s.total)) && (!counts || fits<R>(s.n)); };

    Json j;
    j.s("op", "acc").s("what", Make<what, A, R>::name)
        .s("k1", Kind<A>::name).s("kr", Kind<R>::name).b("big", as_big);
    ev::begin(j);

    auto emit = [&](char const* s, int a, int b, int c, std::string v,
            bool ok, std::string r) {
        Json t;
        t.s("s", s).i("a", a + 1).i("b", b + 1).i("c", c + 1).raw("v", v)
            .b("ok", ok).raw("r", r);
        steps.push_back(t.text + "}");
    };
    std::string const none = as_big ? "[0]" : "0";
    auto code = [&](A x) { return enc_any(x, unit, as_big); };
    auto get = [&](int a) {
        Shadow const& s = shadows[a];
        if(!s.valid) return;
        if(s.n == 0 && !(what == What::sum || counts)) return;
        if(what == What::range && !fits<R>(
                bounds[a].second - bounds[a].first)) return;
        R const r = accs[a]();
        std::string t;
        if constexpr(what == What::mean || what == What::variance) {
            t = std::is_floating_point<R>::value
                ? std::to_string(nearest(r, 0.001L))
                : enc_any(r, 1.0L, as_big);
        }
        else if constexpr(what == What::deviation) {
            t = std::to_string(nearest(r, 0.01L));
        }
        else if constexpr(what == What::median) {
            if(!std::is_floating_point<R>::value) {
                t = enc_any(r, 1.0L, as_big);
            }
            else if(as_big) {
                t = big(static_cast<int64_t>(static_cast<long double>(r) * 2));
            }
            else t = std::to_string(enc(r, unit / 2));
        }
        else if constexpr(counts) t = enc_any(r, 1.0L, as_big);
        else if(as_big && std::is_floating_point<R>::value) {
            t = big(static_cast<int64_t>(r));
        }
        else t = enc_any(r, unit, as_big);
        emit("get", a, 0, 0, none, true, t);
    };

    int const n = counts ? rng.range(20, 90) : rng.range(4, 20);
    for(int i = 0; i < n; ++i) {
        int const a = rng.range(0, 2), b = rng.range(0, 2), c = rng.range(0, 2);
        int const s = rng.range(0, 99);
        if(s < 4) {
            accs[a] = Acc();
            shadows[a] = Shadow();
            bounds[a] = {1, 0};
            emit("new", a, 0, 0, none, true, none);
        }
        else if(s < 12) {
            A const x = value();
            Shadow t{wide(x), 1, true};
            if(!ok_for(t)) continue;
            bool const assign = rng.chance(50);
            if(assign) accs[a] = x;
            else accs[a] = Acc(x);
            shadows[a] = t;
            bounds[a] = {wide(x), wide(x)};
            emit(assign ? "set" : "init", a, 0, 0, code(x), true, none);
        }
        else if(s < 55) {
            if(!shadows[a].valid) continue;
            A const x = value();
            Shadow t{shadows[a].total + wide(x), shadows[a].n + 1, true};
            bool ok = true;
            char const* name = "add";
            if constexpr(checked) {
                if(!ok_for(t) || rng.chance(50)) {
                    name = "addc";
                    ok = accs[a].template operator()<fa::sum::OutOfRangePolicy>(
                        x);
                    t.valid = ok;
                }
                else accs[a](x);
            }
            else {
                if(!ok_for(t)) continue;
                accs[a](x);
            }
            shadows[a] = t;
            bounds[a] = join(bounds[a], {wide(x), wide(x)});
            emit(name, a, 0, 0, code(x), ok, none);
        }
        else if(s < 75) {
            if(a == b || !shadows[a].valid || !shadows[b].valid) continue;
            Shadow t{shadows[a].total + shadows[b].total,
                shadows[a].n + shadows[b].n, true};
            if(t.n > 40 && !counts) continue;
            bool ok = true;
            char const* name = "merge";
            if constexpr(checked) {
                if(!ok_for(t) || rng.chance(50)) {
                    name = "mergec";
                    ok = accs[a].template operator|=<fa::sum::OutOfRangePolicy>(
                        accs[b]);
                    t.valid = ok;
                }
                else accs[a] |= accs[b];
            }
            else {
                if(!ok_for(t)) continue;
                accs[a] |= accs[b];
            }
            shadows[a] = t;
            bounds[a] = join(bounds[a], bounds[b]);
            emit(name, a, b, 0, none, ok, none);
        }
        else if(s < 82) {
            if(!shadows[b].valid || !shadows[c].valid) continue;
            Shadow t{shadows[b].total + shadows[c].total,
                shadows[b].n + shadows[c].n, true};
            if(!ok_for(t) || (t.n > 40 && !counts)) continue;
            accs[a] = accs[b] | accs[c];
            shadows[a] = t;
            bounds[a] = join(bounds[b], bounds[c]);
            emit("join", a, b, c, none, true, none);
        }
        else if(s < 87) {
            if(!shadows[b].valid || a == b) continue;
            accs[a] = accs[b];
            shadows[a] = shadows[b];
            bounds[a] = bounds[b];
            emit("copy", a, b, 0, none, true, none);
        }
        else get(a);
    }
    for(int a = 0; a < 3; ++a) get(a);
    j.raws("steps", steps);
    ev::end(j);
}

template<typename A, typename R>
void exact(std::vector<ev::Kind>& k)
{
    k.insert(k.end(), {program<What::sum, A, R>, program<What::mean, A, R>,
        program<What::median, A, R>, program<What::range, A, R>,
        program<What::max, A, R>, program<What::min, A, R>});
}

} // namespace

int main(int argc, char** argv)
{
    auto& k = ev::kinds();
#if GROUP == 0
    exact<int8_t, int8_t>(k);
    exact<uint8_t, uint8_t>(k);
    exact<int16_t, int16_t>(k);
    exact<int8_t, int16_t>(k);
    exact<uint8_t, uint16_t>(k);
    exact<int16_t, double>(k);
#elif GROUP == 1
    exact<int32_t, int32_t>(k);
    exact<uint32_t, uint32_t>(k);
    exact<int64_t, int64_t>(k);
    exact<int8_t, int64_t>(k);
    exact<float, float>(k);
    exact<float, double>(k);
    exact<double, double>(k);
#else
    k = {program<What::count, int8_t, int8_t>,
        program<What::count, double, uint8_t>,
        program<What::count, int32_t, int32_t>,
        program<What::count, float, uint64_t>,
        program<What::count, uint8_t, uint8_t>,
        program<What::count, uint8_t, uint64_t>,
        program<What::count, int8_t, int64_t>,
        program<What::mode, int8_t, int8_t>,
        program<What::mode, uint32_t, uint32_t>,
        program<What::mode, int32_t, int64_t>,
        program<What::mode, double, double>,
        program<What::variance, float, float>,
        program<What::variance, double, double>,
        program<What::variance, int16_t, double>,
        program<What::deviation, float, float>,
        program<What::deviation, double, double>,
        program<What::deviation, int32_t, double>};
#endif
    return ev::main(argc, argv);
}
