// Records how arrays are split in blocks.
#include "events.h"
#include "fern/algorithm/core/index_ranges.h"
#include "fern/core/data_customization_point.h"
#include "fern/algorithm/policy/execution_policy.h"
#include <algorithm>

namespace fa = fern::algorithm;
using ev::Json;
using ev::Rng;

namespace {

void draw(Rng& rng, int64_t& n, int64_t& size)
{
    // All small combinations first, others after that.
    int64_t const k = rng.index / 3;
    if(k < 20 * 61) {
        n = 1 + k % 20;
        size = k / 20;
    }
    else if(rng.chance(70)) {
        n = rng.range(1, 64);
        size = rng.range(0, 300);
    }
    else {
        n = rng.range(1, 64);
        size = rng.range(0, rng.chance(50) ? 100000 : 1000000000);
        if(size / n > 0 && rng.chance(50)) size -= size % n;
        size += rng.range(-1, 1);
        if(size < 0) size = 0;
    }
}

void split1(Rng& rng)
{
    int64_t n, size;
    draw(rng, n, size);
    Json j;
    j.s("op", "split1").i("n", n).i("rows_size", size);
    ev::begin(j);
    std::vector<int64_t> rows;
    for(auto const& r: fa::index_ranges(n, size)) {
        rows.push_back(r[0].begin());
        rows.push_back(r[0].end());
    }
    j.is("rows", rows);
    ev::end(j);
}

void split2(Rng& rng)
{
    int64_t n, size;
    draw(rng, n, size);
    int64_t const cols_size = rng.chance(20) ? 0 : rng.chance(50)
        ? rng.range(1, 100) : rng.range(1, 1000000000);
    Json j;
    j.s("op", "split2").i("n", n).i("rows_size", size).i("cols_size",
        cols_size);
    ev::begin(j);
    std::vector<int64_t> rows, cols;
    for(auto const& r: fa::index_ranges(n, size, cols_size)) {
        rows.push_back(r[0].begin());
        rows.push_back(r[0].end());
        cols.push_back(r[1].begin());
        cols.push_back(r[1].end());
    }
    j.is("rows", rows).is("cols", cols);
    ev::end(j);
}

void range(Rng& rng)
{
    int64_t const hi = rng.chance(80) ? 4 : 20000;
    int64_t b[4];
    for(auto& x: b) x = rng.range(0, hi);
    std::sort(b, b + 2);
    std::sort(b + 2, b + 4);
    if(b[3] < b[0]) { std::swap(b[0], b[2]); std::swap(b[1], b[3]); }
    Json j;
    j.s("op", "range").is("a", std::vector<int64_t>{b[0], b[1]})
        .is("b", std::vector<int64_t>{b[2], b[3]});
    ev::begin(j);
    fa::IndexRange const a(b[0], b[1]), c(b[2], b[3]);
    fa::IndexRange m(a);
    m.set_end(c.end());
    fa::IndexRanges<2> const p(a, c), q(c, a);
    fa::IndexRanges<2> t(p), u(q);
    t = q;
    u = std::move(t);
    fa::IndexRanges<1> const one(a), two(c);
    bool const copy = u == q && u[0] == q[0] && !(u[1] != q[1]) &&
        u[0].begin() == c.begin() && u[1].end() == a.end() &&
        (one == two) == (a == c) && (one != two) == (a != c) &&
        one.size() == a.size() && one.empty() == a.empty();
    j.is("sizes", std::vector<int64_t>{int64_t(a.size()), int64_t(c.size()),
            int64_t(m.size()), int64_t(p.size())})
        .bs("empties", std::vector<bool>{a.empty(), c.empty(), m.empty(),
            p.empty()})
        .is("end", std::vector<int64_t>{int64_t(m.begin()), int64_t(m.end())})
        .b("eq", a == c).b("ne", a != c).b("eq2", p == q).b("ne2", p != q)
        .b("copy", copy);
    ev::end(j);
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {split1, split2, range};
    return ev::main(argc, argv);
}
