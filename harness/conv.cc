// Records convolutions. Compile with -DGROUP=<0..3>.
#include "local.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/neighborhood.h"
#include "fern/algorithm/convolution/neighborhood/kernel_traits.h"
#include "fern/algorithm/convolution/neighborhood/square_traits.h"
#include "fern/algorithm/convolution/policies.h"

using namespace local;
namespace fac = fern::algorithm::convolve;

namespace {

// The policies of the library, chosen at run time.
bool no_data_average, out_of_image_average, divide;

struct NoData
{
    template<typename... A>
    static bool value(A&&... a)
    {
        return no_data_average
            ? fac::ReplaceNoDataByFocalAverage::value(a...)
            : fac::SkipNoData::value(a...);
    }
};

struct OutOfImage
{
#define SIDE(name)                                                           \
    template<typename... A>                                                  \
    static bool name(A&&... a)                                               \
    {                                                                        \
        return out_of_image_average                                          \
            ? fac::ReplaceOutOfImageByFocalAverage::name(a...)               \
            : fac::SkipOutOfImage::name(a...);                               \
    }
    SIDE(value_north_west) SIDE(value_north_east) SIDE(value_south_west)
    SIDE(value_south_east) SIDE(value_north) SIDE(value_west)
    SIDE(value_east) SIDE(value_south)
#undef SIDE
};

struct Normalize
{
    template<typename V, typename C>
    static V normalize(V const& v, C const& c)
    {
        return divide ? fac::DivideByWeights::normalize(v, c)
            : fac::DontDivideByWeights::normalize(v, c);
    }
};

// Kernels.
template<typename W, size_t radius>
fern::Square<W, radius> square(std::vector<W> const& w)
{
    std::initializer_list<W> row1{W(), W(), W()};
    std::initializer_list<W> row2{W(), W(), W(), W(), W()};
    std::initializer_list<W> row3{W(), W(), W(), W(), W(), W(), W()};
    auto make = [&]() {
        if constexpr(radius == 1) {
            return fern::Square<W, 1>{{row1, row1, row1}};
        }
        else if constexpr(radius == 2) {
            return fern::Square<W, 2>{{row2, row2, row2, row2, row2}};
        }
        else {
            return fern::Square<W, 3>{{row3, row3, row3, row3, row3, row3,
                row3}};
        }
    };
    auto result = make();
    for(size_t i = 0; i < w.size(); ++i) result.weight(i) = w[i];
    return result;
}

template<typename W>
fern::Kernel<W> kernel(size_t radius, std::vector<W> const& w)
{
    fern::Kernel<W> result(radius, W(0));
    for(size_t i = 0; i < w.size(); ++i) result.weight(i) = w[i];
    return result;
}

struct Thousandths
{
    template<typename U>
    static std::string encode(U x, long double unit, bool) {
        return std::to_string(nearest(x, unit)); }
};

struct Plain
{
    template<typename U>
    static std::string encode(U x, long double unit, bool) {
        return std::to_string(enc(x, unit)); }
};

// fixed: radius of a Square, 0: a Kernel of any radius.
template<typename T, typename R, typename W, size_t fixed>
void convolve(Rng& rng)
{
    size_t const radius = fixed > 0 ? fixed : rng.range(1, 3);
    bool const huge = std::is_same<T, R>::value && rng.chance(8);
    bool const plain = !huge && rng.chance(8);
    bool const checked = huge || (!plain && rng.chance(50));
    bool const keep = plain || rng.chance(50);
    no_data_average = !huge && !plain && rng.chance(50);
    out_of_image_average = !huge && !plain && rng.chance(50);
    divide = plain || (!huge && rng.chance(50));
    Shape s{2 * radius, 2 * radius};
    if(rng.chance(85)) s.rows += rng.range(0, 5);
    if(rng.chance(85)) s.cols += rng.range(0, 5);

    std::vector<W> w;
    int zeros = rng.chance(30) ? 95 : rng.chance(50) ? 30 : 0;
    for(size_t i = 0; i < (2 * radius + 1) * (2 * radius + 1); ++i) {
        if(rng.chance(zeros)) w.push_back(W(0));
        else if(std::is_same<W, bool>::value) w.push_back(W(1));
        else w.push_back(W(huge ? rng.range(-1, 1) :
            rng.range(divide ? 0 : -3, 3)));
    }
    long double const unit = huge ? std::ldexp(1.0L,
        std::numeric_limits<T>::max_exponent - 2) : 1.0L;
    int scale = huge ? rng.range(0, 2) : 10;
    Input<T, 2> a(rng, s, plain, [&](size_t) {
        return T(rng.range(-scale, scale) * unit); });
    if(huge && (a.mode == In::value || a.mode == In::by_value)) {
        return convolve<T, R, W, fixed>(rng);
    }
    Output<R, 2> output(rng, s, plain);
    auto ex = execution(rng);

    Json j;
    j.s("op", "convolve").i("rows", s.rows).i("cols", s.cols)
        .s("ex", ex.name).i("radius", radius).b("huge", huge)
        .b("chk", checked).b("keep", keep).b("nda", no_data_average)
        .b("ooia", out_of_image_average).b("div", divide)
        .s("kw", Kind<W>::name);
    std::vector<std::string> ws;
    for(W x: w) ws.push_back(std::to_string(int(x)));
    j.raws("w", ws);
    a.write(j, '1', unit, false, Plain{});
    ev::begin(j);
    auto& source = a.store->values();
    auto& destination = output.store->values();
    auto run = [&](auto const& k) {
        if(plain) {
            fa::convolution::convolve(ex.policy, source, k, destination);
            return;
        }
        fa::InputNoDataPolicies<decltype(a.policy())> in{a.policy()};
        auto out = output.policy();
#define CALL(Focus, Range) fa::convolution::convolve<NoData, Normalize,      \
            OutOfImage, Focus, Range>(in, out, ex.policy, source, k,         \
            destination)
        if(checked) {
            if(keep) CALL(fac::KeepNoDataFocusElement, fac::OutOfRangePolicy);
            else CALL(fac::ReplaceNoDataFocusElement, fac::OutOfRangePolicy);
        }
        else {
            if(keep) CALL(fac::KeepNoDataFocusElement,
                fa::unary::DiscardRangeErrors);
            else CALL(fac::ReplaceNoDataFocusElement,
                fa::unary::DiscardRangeErrors);
        }
#undef CALL
    };
    if constexpr(fixed > 0) run(square<W, fixed>(w));
    else run(kernel<W>(radius, w));
    output.write(j, huge ? unit : 0.001L, false, Thousandths{});
    j.b("same", a.unchanged());
    ev::end(j);
}

} // namespace

int main(int argc, char** argv)
{
    auto& k = ev::kinds();
#if GROUP == 0
    k.push_back(convolve<double, double, bool, 1>);
    k.push_back(convolve<float, float, int32_t, 0>);
#elif GROUP == 1
    k.push_back(convolve<double, double, double, 2>);
    k.push_back(convolve<float, float, bool, 0>);
#elif GROUP == 2
    k.push_back(convolve<float, double, float, 1>);
    k.push_back(convolve<double, double, int32_t, 0>);
#else
    k.push_back(convolve<float, float, double, 3>);
    k.push_back(convolve<double, float, float, 0>);
    k.push_back(convolve<float, float, int32_t, 2>);
#endif
    return ev::main(argc, argv);
}
