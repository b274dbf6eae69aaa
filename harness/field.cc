// Records operations on fields: slope, gradient, laplacian, lax. Compile with
// -DGROUP=<0..1>.
#include "local.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
#include "fern/algorithm/space/focal/slope.h"

using namespace local;
namespace al = fern::algorithm::algebra;

namespace {

enum class Op { slope, gradient_x, gradient_y, laplacian, lax };

char const* const names[] = {"slope", "gradient_x", "gradient_y", "laplacian",
    "lax"};

template<typename T, Op op>
void field(Rng& rng)
{
    using R = fern::MaskedRaster<T, 2>;
    bool const plain = rng.chance(15);
    size_t const least = 2;
    Shape s{least, least};
    if(rng.chance(85)) s.rows += rng.range(0, 6);
    if(rng.chance(85)) s.cols += rng.range(0, 6);
    int const w = rng.range(1, 4), h = rng.range(1, 4), k = rng.range(0, 8);
    typename R::Transformation const where{{double(rng.range(-9, 9)),
        double(w), double(rng.range(-9, 9)), double(h)}};
    R a(fern::extents[s.rows][s.cols], where);
    R result(fern::extents[s.rows][s.cols], where, T(77));
    int const no_data = plain ? 0 : rng.pick(std::vector<int>{0, 20, 50, 90});
    bool const prior = op == Op::gradient_x || op == Op::gradient_y;
    std::vector<int> v;
    std::vector<bool> n, p;
    for(size_t i = 0; i < s.rows * s.cols; ++i) {
        v.push_back(rng.range(-10, 10));
        n.push_back(rng.chance(no_data));
        p.push_back(!plain && prior && rng.chance(10));
        a.data()[i] = n.back() && rng.chance(50)
            ? std::numeric_limits<T>::quiet_NaN() : T(v.back());
        a.mask().data()[i] = n.back();
        result.mask().data()[i] = p.back();
    }
    R original(fern::extents[s.rows][s.cols], where);
    std::copy(a.data(), a.data() + v.size(), original.data());

    auto ex = execution(rng);
    Json j;
    j.s("op", names[int(op)]).i("rows", s.rows).i("cols", s.cols)
        .i("w", w).i("h", h).i("k", k).s("k1", Kind<T>::name)
        .s("ex", ex.name).is("v1", v).bs("n1", n)
        .s("out", plain ? "dont" : "mask").bs("p", p);
    ev::begin(j);
    using M = fern::Mask<2>;
    fa::InputNoDataPolicies<fa::DetectNoDataByValue<M>> in{{a.mask(), true}};
    fa::MarkNoDataByValue<M> out(result.mask(), true);
    if constexpr(op == Op::slope) {
        if(plain) fa::space::slope(ex.policy, a, result);
        else fa::space::slope<fa::slope::OutOfRangePolicy>(in, out, ex.policy,
            a, result);
    }
    else if constexpr(op == Op::gradient_x) {
        if(plain) al::gradient_x(ex.policy, a, result);
        else al::gradient_x(in, out, ex.policy, a, result);
    }
    else if constexpr(op == Op::gradient_y) {
        if(plain) al::gradient_y(ex.policy, a, result);
        else al::gradient_y(in, out, ex.policy, a, result);
    }
    else if constexpr(op == Op::laplacian) {
        if(plain) al::laplacian(ex.policy, a, result);
        else al::laplacian<fa::laplacian::OutOfRangePolicy>(in, out,
            ex.policy, a, result);
    }
    else {
        T const fraction = T(k) / T(8);
        if(plain) al::lax(ex.policy, a, fraction, result);
        else al::lax(in, out, ex.policy, a, fraction, result);
    }
    std::vector<std::string> r;
    std::vector<bool> rn;
    for(size_t i = 0; i < v.size(); ++i) {
        r.push_back(std::to_string(nearest(result.data()[i], 0.001L)));
        rn.push_back(result.mask().data()[i]);
    }
    j.raws("r", r).bs("rn", rn);
    bool same = std::memcmp(original.data(), a.data(), v.size() * sizeof(T))
        == 0 && result.transformation() == where && a.transformation() == where;
    for(size_t i = 0; i < v.size(); ++i) {
        same = same && a.mask().data()[i] == n[i];
    }
    j.b("same", same);
    ev::end(j);
}

} // namespace

int main(int argc, char** argv)
{
    auto& k = ev::kinds();
#if GROUP == 0
    using T = double;
#else
    using T = float;
#endif
    k.push_back(field<T, Op::slope>);
    k.push_back(field<T, Op::gradient_x>);
    k.push_back(field<T, Op::gradient_y>);
    k.push_back(field<T, Op::laplacian>);
    k.push_back(field<T, Op::lax>);
    return ev::main(argc, argv);
}
