// Executions of algorithms in parallel under the controlled scheduler, with a
// recording of what orders threads and of their accesses to shared memory.
// Compile with -DGROUP=<0..2>.
#include "runs.h"
#include "race.h"
#include "fern/feature/core/array.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_type_traits/scalar.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_type_traits/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_type_traits/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/policy/policies.h"
#if GROUP == 0
#include "fern/algorithm/algebra/elementary.h"
#include "fern/algorithm/algebra/boole.h"
#include "fern/algorithm/statistic.h"
#elif GROUP == 1
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/cover.h"
#include "fern/algorithm/core/decompress.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/intersect_no_data.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/offset.h"
#include "fern/algorithm/core/unite_no_data.h"
#else
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/neighborhood.h"
#include "fern/algorithm/convolution/neighborhood/square_traits.h"
#include "fern/algorithm/convolution/policies.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
#include "fern/algorithm/space/focal/slope.h"
#endif
#include <cmath>
#include <memory>
#include <new>
#include <thread>

// Memory is not used again while accesses to it are recorded.
void* operator new(std::size_t size)
{
    void* p = std::malloc(size ? size : 1);
    if(!p) { throw std::bad_alloc(); }
    return p;
}
void operator delete(void* p) noexcept { if(!sched::active()) { std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }

namespace fa = fern::algorithm;

namespace {

void add_recording(std::string& head, std::string& events)
{
    if(race::too_long()) { fprintf(stderr, "recording too long\n"); _exit(3); }
    events = race::events();
    head = ",\"threads\":" + std::to_string(race::nr_threads()) +
        ",\"objects\":" + std::to_string(race::nr_objects()) +
        ",\"locations\":" + std::to_string(race::nr_locations());
}

void prepare()
{
    race::init();
    extra = add_recording;
}

int const no_data = -1000000;

template<int D> struct Grid;
template<> struct Grid<1> {
    using Array = fern::MaskedArray<double, 1>;
    Array values;
    Grid(int, int cols): values(fern::extents[cols]) {}
};
template<> struct Grid<2> {
    using Array = fern::MaskedRaster<double, 2>;
    Array values;
    Grid(int rows, int cols): values(fern::extents[rows][cols],
        std::array<double, 4>{{0, 2, 0, 3}}) {}
};

int rounded(double x)
{
    return std::isfinite(x) && std::fabs(x) < 1e6 ? int(std::lround(x * 1000))
        : 1999999999;
}

// One call: its arguments, and its results.
template<int D>
struct Call
{
    using M = fern::Mask<D>;
    int kind, rows, cols;
    Grid<D> a, b, c, high;
    fern::MaskedArray<double, 1> list, short_list;
    double scalar = 0;
    int flag = 0;
    size_t count = 0;
    int p, q, n;

    Call(int kind, int rows, int cols)
        : kind(kind), rows(rows), cols(cols), a(rows, cols), b(rows, cols),
          c(rows, cols), high(rows, cols), list(fern::extents[rows * cols]),
          short_list(fern::extents[rows * cols])
    {
    }
    size_t size() const { return size_t(rows) * cols; }
    fa::DetectNoDataByValue<M> in(Grid<D>& g) { return {g.values.mask(), true}; }
    fa::MarkNoDataByValue<M> out() { return {c.values.mask(), true}; }

    template<typename P> void perform(P& policy);

    // Everything that can be a result. Reads every cell.
    std::vector<int> results()
    {
        std::vector<int> r;
        for(size_t i = 0; i < size(); ++i) {
            r.push_back(c.values.mask().data()[i] ? no_data
                : rounded(c.values.data()[i]));
            // What follows the values of a compressed collection is undefined.
            r.push_back(i < count ? rounded(list.data()[i]) : 0);
        }
        r.push_back(rounded(scalar));
        r.push_back(count);
        return r;
    }
};

#if GROUP == 0
template<int D> int const nr_kinds = 15;
template<int D> template<typename P> void Call<D>::perform(P& policy)
{
    auto& A = a.values; auto& B = b.values; auto& C = c.values;
    using I = fa::DetectNoDataByValue<M>;
    auto o = out();
    fa::DontMarkNoData dont;
    fa::InputNoDataPolicies<I> one{in(a)};
    fa::InputNoDataPolicies<I, I> two{in(a), in(b)};
    fa::InputNoDataPolicies<I, fa::SkipNoData> left{in(a), {}};
    switch(kind) {
        case 0: fa::algebra::add<fa::add::OutOfRangePolicy>(two, o, policy, A,
            B, C); break;
        case 1: fa::algebra::multiply<fa::multiply::OutOfRangePolicy>(left, o,
            policy, A, 3.0, C); break;
        case 2: fa::algebra::subtract(policy, A, B, C); break;
        case 3: fa::algebra::divide<fa::divide::OutOfDomainPolicy,
            fa::divide::OutOfRangePolicy>(two, o, policy, A, B, C); break;
        case 4: fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(one, o, policy, A,
            C); break;
        case 5: fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>(one, o, policy,
            A, C); break;
        case 6: fa::statistic::sum<fa::sum::OutOfRangePolicy>(one, dont,
            policy, A, scalar); break;
        case 7: fa::statistic::mean<fa::mean::OutOfRangePolicy>(one, dont,
            policy, A, scalar); break;
        case 8: fa::statistic::unary_max(one, dont, policy, A, scalar); break;
        case 9: fa::statistic::unary_min(policy, A, scalar); break;
        case 10: fa::statistic::count(left, dont, policy, A, 1.0, count);
            break;
        case 11: fa::statistic::binary_max(two, o, policy, A, B, C); break;
        case 12: {
            fa::InputNoDataPolicies<fa::SkipNoData, I> right{{}, in(b)};
            fa::algebra::subtract<fa::subtract::OutOfRangePolicy>(right, o,
                policy, 10.0, B, C);
            break;
        }
        case 13: fa::algebra::defined(one, policy, C); break;
        case 14: fa::algebra::add(policy, C, 2.0, C); break;
    }
}
#elif GROUP == 1
template<int D> int const nr_kinds = D == 1 ? 14 : 24;
template<int D> template<typename P> void Call<D>::perform(P& policy)
{
    auto& A = a.values; auto& B = b.values; auto& C = c.values;
    auto& H = high.values;
    using I = fa::DetectNoDataByValue<M>;
    fa::SkipNoData skip;
    auto o = out();
    fa::InputNoDataPolicies<I> one{in(a)};
    fa::InputNoDataPolicies<I, I> two{in(a), in(b)};
    fa::InputNoDataPolicies<I, fa::SkipNoData> left{in(a), skip};
    fa::InputNoDataPolicies<fa::SkipNoData, I> right{skip, in(b)};
    fa::InputNoDataPolicies<I, fa::SkipNoData, fa::SkipNoData> first{in(a),
        skip, skip};
    fa::InputNoDataPolicies<I, I, fa::SkipNoData> front{in(a), in(b), skip};
    fa::InputNoDataPolicies<I, fa::SkipNoData, I> ends{in(a), skip, in(b)};
    fa::InputNoDataPolicies<fa::SkipNoData> none{skip};
    fern::Point<int, D> move;
    move[0] = p;
    if constexpr(D == 2) { move[1] = q; }
    switch(kind) {
        case 0: fa::core::clamp(first, o, policy, A, B, H, C); break;
        case 1: fa::core::clamp(first, o, policy, A, B, 9.0, C); break;
        case 2: fa::core::clamp(first, o, policy, A, -9.0, H, C); break;
        case 3: fa::core::compress(one, policy, A, list, count); break;
        case 4: fa::core::decompress(one, o, policy, short_list, C); break;
        case 5: fa::core::fill(none, o, policy, 5.0, C); break;
        case 6: fa::core::if_(front, o, policy, A, B, 7.0, C); break;
        case 7: fa::core::if_(first, o, policy, A, 6.0, 7.0, C); break;
        case 8: fa::core::if_(ends, o, policy, A, 6.0, B, C); break;
        case 9: fa::core::if_(front, o, policy, A, B, H, C); break;
        case 10: fa::core::offset(one, o, policy, A, move, C); break;
        case 11: fa::core::offset(one, o, policy, A, move, 9.0, C); break;
    }
    if constexpr(D == 1) {
        switch(kind) {
            case 12: case 13: {
                fern::Point<size_t, 1> to(q);
                fa::core::copy(one, o, policy, A, fa::IndexRanges<1>{
                    fa::IndexRange(p, p + n)}, C, to);
                break;
            }
        }
    }
    else {
        switch(kind) {
            case 12: fa::core::cover(two, o, policy, A, B, C); break;
            case 13: fa::core::cover(left, o, policy, A, 4.0, C); break;
            case 14: fa::core::intersect_no_data(two, o, policy, A, B, C); break;
            case 15: fa::core::unite_no_data(two, o, policy, A, B, C); break;
            case 16: fa::core::merge_no_data(one, o, policy, A, C); break;
            case 17: fa::core::if_(right, o, policy, flag, B, C); break;
            case 18: fa::core::if_(left, o, policy, A, 3.0, C); break;
            case 19: fa::core::if_(two, o, policy, A, B, C); break;
            case 20: {
                fa::InputNoDataPolicies<fa::SkipNoData, I, fa::SkipNoData> in_{
                    skip, in(b), skip};
                fa::core::if_(in_, o, policy, flag, B, 3.0, C);
                break;
            }
            case 21: {
                fa::InputNoDataPolicies<fa::SkipNoData, fa::SkipNoData, I> in_{
                    skip, skip, in(b)};
                fa::core::if_(in_, o, policy, flag, 3.0, B, C);
                break;
            }
            case 22: case 23: {
                fa::InputNoDataPolicies<fa::SkipNoData, I, I> in_{skip, in(a),
                    in(b)};
                fa::core::if_(in_, o, policy, flag, A, B, C);
                break;
            }
        }
    }
}
#else
template<int D> int const nr_kinds = 9;
template<int D> template<typename P> void Call<D>::perform(P& policy)
{
    namespace fac = fa::convolve;
    auto& A = a.values; auto& C = c.values;
    using I = fa::DetectNoDataByValue<M>;
    auto o = out();
    fa::InputNoDataPolicies<I> one{in(a)};
    fa::InputNoDataPolicies<fa::SkipNoData> none{{}};
    fa::DontMarkNoData dont;
    fern::Square<double, 1> kernel{{{1, 2, 1}, {2, 0, 2}, {1, 2, 1}}};
    switch(kind) {
        case 0: fa::convolution::convolve<fac::SkipNoData,
            fac::DivideByWeights, fac::SkipOutOfImage,
            fac::KeepNoDataFocusElement, fa::unary::DiscardRangeErrors>(one, o,
            policy, A, kernel, C); break;
        case 1: fa::convolution::convolve<fac::ReplaceNoDataByFocalAverage,
            fac::DontDivideByWeights, fac::ReplaceOutOfImageByFocalAverage,
            fac::ReplaceNoDataFocusElement, fac::OutOfRangePolicy>(one, o,
            policy, A, kernel, C); break;
        case 2: fa::algebra::gradient_x(one, o, policy, A, C); break;
        case 3: fa::algebra::gradient_y(one, o, policy, A, C); break;
        case 4: fa::algebra::laplacian<fa::laplacian::OutOfRangePolicy>(one, o,
            policy, A, C); break;
        case 5: fa::algebra::lax(one, o, policy, A, 0.25, C); break;
        case 7: fa::convolution::convolve<fac::SkipNoData,
            fac::DontDivideByWeights, fac::SkipOutOfImage,
            fac::KeepNoDataFocusElement, fa::unary::DiscardRangeErrors>(
            none, dont, policy, A, kernel, C); break;
        case 8: {
            fern::Square<bool, 1> near{{{true, false, true},
                {false, true, true}, {true, true, false}}};
            fa::convolution::convolve<fac::SkipNoData, fac::DivideByWeights,
                fac::SkipOutOfImage, fac::ReplaceNoDataFocusElement,
                fa::unary::DiscardRangeErrors>(one, o, policy, A, near, C);
            break;
        }
        case 6: fa::space::slope<fa::slope::OutOfRangePolicy>(one, o, policy,
            A, C); break;
    }
}
#endif

struct Case
{
    virtual ~Case() = default;
    virtual void sequential() = 0;
    virtual void parallel(fa::ParallelExecutionPolicy& policy) = 0;
    virtual std::vector<int> results() = 0;
};

template<int D>
struct CaseOf: Case
{
    Call<D> once, again;
    explicit CaseOf(int kind, int rows, int cols)
        : once(kind, rows, cols), again(kind, rows, cols)
    {
        bool const marks = rnd(3) != 0;
        bool const prior = rnd(4) == 0 && GROUP != 2;
        int const n = once.size();
        int const p = D == 1 ? int(rnd(2 * n + 3)) - n - 1
            : int(rnd(2 * rows + 1)) - rows;
        int const q = int(rnd(2 * cols + 1)) - cols;
        int const length = rnd(n + 1), flag = rnd(2);
        for(int i = 0; i < n; ++i) {
            double const x = int(rnd(9)) - 4, y = int(rnd(9)) - 4, z = rnd(9);
            bool const m1 = marks && rnd(3) == 0, m2 = marks && rnd(3) == 0;
            bool const m3 = prior && rnd(4) == 0;
            for(auto* call: {&once, &again}) {
                call->a.values.data()[i] = x;
                call->b.values.data()[i] = y;
                call->c.values.data()[i] = z;
                call->high.values.data()[i] = y + 3;
                call->a.values.mask().data()[i] = m1;
                call->b.values.mask().data()[i] = m2;
                call->c.values.mask().data()[i] = m3;
                call->list.data()[i] = 50 + i;
                call->short_list.data()[i] = 20 + i;
            }
        }
        for(auto* call: {&once, &again}) {
            call->p = p; call->q = q; call->n = length; call->flag = flag;
            if(D == 1 && GROUP == 1 && kind > 11) {
                call->p = (p + n + 1) % (n - length + 1);
                call->q = (q + cols) % (n - length + 1);
            }
        }
    }
    void sequential() override
    {
        fa::SequentialExecutionPolicy policy;
        once.perform(policy);
    }
    void parallel(fa::ParallelExecutionPolicy& policy) override
    {
        again.perform(policy);
    }
    std::vector<int> results() override
    {
        return again.results();
    }
    std::vector<int> expected() { return once.results(); }
};

struct Job
{
    std::unique_ptr<Case> cases;
    std::vector<int> want;
    int kind, dimensions;
};

Job job(bool small)
{
    Job j;
    j.dimensions = GROUP == 2 ? 2 : 1 + (rnd(5) > 1);
    j.kind = rnd(j.dimensions == 1 ? nr_kinds<1> : nr_kinds<2>);
    int const most = small ? 2 : 4;
    if(j.dimensions == 1) {
#if GROUP != 2
        auto c = std::make_unique<CaseOf<1>>(j.kind, 1, 1 + rnd(2 * most));
        c->sequential();
        j.want = c->expected();
        j.cases = std::move(c);
#endif
    }
    else {
        int const least = GROUP == 2 ? 2 : 1;
        auto c = std::make_unique<CaseOf<2>>(j.kind, least + rnd(most),
            least + rnd(std::max(2, most - 1)));
        c->sequential();
        j.want = c->expected();
        j.cases = std::move(c);
    }
    return j;
}

std::string list(std::vector<int> const& values)
{
    std::string s = "[";
    for(size_t i = 0; i < values.size(); ++i) {
        s += (i ? "," : "") + std::to_string(values[i]);
    }
    return s + "]";
}

// S1: one call. S2: calls by two threads that share the pool. S3: calls after
// each other, by one thread.
void scenario(std::string const& family, sched::Options const& options,
    bool small)
{
    int const nr_calls = family == "S1" ? 1 : 2;
    int const nr_workers = 1 + rnd(small ? 2 : 3);
    std::vector<Job> jobs;
    std::string wanted, kinds;
    auto describe = [&]() {
        set_head("\"workers\":" + std::to_string(nr_workers) +
            ",\"group\":" + std::to_string(GROUP) + ",\"kinds\":[" + kinds +
            "],\"want\":[" + wanted + "]");
    };
    describe();
    for(int i = 0; i < nr_calls; ++i) {
        jobs.push_back(job(small));
        wanted += (i ? "," : "") + list(jobs[i].want);
        kinds += (i ? "," : "") + std::to_string(jobs[i].kind * 10 +
            jobs[i].dimensions);
    }
    describe();
    std::vector<std::vector<int>> got(nr_calls);
    sched::start(options);
    race::start();
    {
        fa::ParallelExecutionPolicy policy(nr_workers);
        if(family == "S2") {
            std::vector<std::thread> callers;
            for(int i = 0; i < nr_calls; ++i) {
                callers.emplace_back([&, i]() {
                    jobs[i].cases->parallel(policy);
                    got[i] = jobs[i].cases->results();
                });
            }
            for(auto& caller: callers) { caller.join(); }
        }
        else {
            for(int i = 0; i < nr_calls; ++i) {
                jobs[i].cases->parallel(policy);
                got[i] = jobs[i].cases->results();
            }
        }
    }
    race::stop();
    sched::stop();
    for(int i = 0; i < nr_calls; ++i) {
        for(size_t k = 0; k < got[i].size(); ++k) {
            log("X", k + 1, i + 1, "", got[i][k]);
        }
        log("END", got[i].size(), i + 1);
    }
}

} // namespace
