// Programs over two containers (arrays, masked arrays, rasters, masked
// rasters), references to memory, and masked scalars. Each step is recorded
// with the contents of both containers after it. Compile with -DGROUP=<0..2>.
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_type_traits/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_type_traits/masked_array.h"
#include "fern/feature/core/data_customization_point/raster.h"
#include "fern/feature/core/data_type_traits/raster.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_type_traits/masked_raster.h"
#include "fern/feature/core/data_customization_point/array_reference.h"
#include "fern/feature/core/data_type_traits/array_reference.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/feature/core/data_type_traits/masked_scalar.h"
#include "events.h"
#include <array>
#include <memory>

namespace {

using ev::Json;
using ev::Rng;

enum Sort { array, masked_array, raster, masked_raster };
constexpr bool is_masked(Sort s) { return s == masked_array || s == masked_raster; }
constexpr bool is_raster(Sort s) { return s == raster || s == masked_raster; }

template<Sort S, typename T, int D> struct Types;
template<typename T, int D> struct Types<array, T, D>
    { using type = fern::Array<T, D>; };
template<typename T, int D> struct Types<masked_array, T, D>
    { using type = fern::MaskedArray<T, D>; };
template<typename T, int D> struct Types<raster, T, D>
    { using type = fern::Raster<T, D>; };
template<typename T, int D> struct Types<masked_raster, T, D>
    { using type = fern::MaskedRaster<T, D>; };

template<typename C, int D, typename... A>
std::unique_ptr<C> sized(std::vector<int> const& n, A const&... args)
{
    if constexpr(D == 1) {
        return std::make_unique<C>(fern::extents[n[0]], args...);
    }
    else if constexpr(D == 2) {
        return std::make_unique<C>(fern::extents[n[0]][n[1]], args...);
    }
    else {
        return std::make_unique<C>(fern::extents[n[0]][n[1]][n[2]], args...);
    }
}

template<typename T, int D>
std::unique_ptr<fern::ArrayReference<T, D>> sized_reference(T* p,
    std::vector<int> const& n)
{
    using R = fern::ArrayReference<T, D>;
    if constexpr(D == 1) {
        return std::make_unique<R>(p, fern::extents[n[0]]);
    }
    else if constexpr(D == 2) {
        return std::make_unique<R>(p, fern::extents[n[0]][n[1]]);
    }
    else {
        return std::make_unique<R>(p, fern::extents[n[0]][n[1]][n[2]]);
    }
}

template<typename T>
T value(Rng& rng)
{
    return static_cast<T>(std::is_signed<T>::value ? rng.range(-3, 4)
        : rng.range(0, 5));
}

template<Sort S, typename T, int D>
struct Program
{
    using C = typename Types<S, T, D>::type;
    using Transformation = std::array<double, 2 * D>;

    std::unique_ptr<C> slots[2];
    std::vector<std::string> steps;

    // All that can be seen of a container.
    static std::string seen(C const* c)
    {
        Json j;
        std::vector<int64_t> shape, values;
        std::vector<bool> marks;
        std::vector<double> transformation;
        for(int d = 0; d < D; ++d) { shape.push_back(c->shape()[d]); }
        for(size_t i = 0; i < c->num_elements(); ++i) {
            values.push_back(static_cast<int64_t>(c->data()[i]));
        }
        if constexpr(is_masked(S)) {
            for(int d = 0; d < D; ++d) {
                shape.push_back(c->mask().shape()[d]);
            }
            for(size_t i = 0; i < c->num_elements(); ++i) {
                marks.push_back(c->mask().data()[i]);
            }
        }
        if constexpr(is_raster(S)) {
            for(double x: c->transformation()) { transformation.push_back(x); }
        }
        j.is("shape", shape).is("v", values).bs("n", marks)
            .is("t", transformation);
        return j.text + "}";
    }

    static std::vector<int> some_shape(Rng& rng)
    {
        std::vector<int> n;
        for(int d = 0; d < D; ++d) {
            n.push_back(rng.range(rng.chance(10) ? 0 : 1, D == 1 ? 9 : 4 - D / 3));
        }
        return n;
    }

    void make(Rng& rng, int a, Json& j)
    {
        auto n = some_shape(rng);
        size_t cells = 1;
        for(int x: n) { cells *= x; }
        T const v = value<T>(rng);
        std::vector<T> values(cells);
        std::vector<bool> marks(cells);
        Transformation t{};
        for(size_t i = 0; i < t.size(); ++i) { t[i] = rng.range(-9, 20); }
        for(size_t i = 0; i < cells; ++i) {
            values[i] = value<T>(rng);
            marks[i] = rng.chance(30);
        }
        int how = rng.range(0, 5);
        int const last = D == 1 ? 5 : D == 2 ? 3 : 1;
        if(is_raster(S) || how > last) { how %= 2; }
        if(how == 0) {
            if constexpr(is_raster(S)) { slots[a] = sized<C, D>(n, t); }
            else { slots[a] = sized<C, D>(n); }
            values.assign(cells, T(0));
        }
        else if(how == 1) {
            if constexpr(is_raster(S)) { slots[a] = sized<C, D>(n, t, v); }
            else { slots[a] = sized<C, D>(n, v); }
            values.assign(cells, v);
        }
        bool listed = false;
        if constexpr(!is_raster(S) && D == 1) {
            if(how == 2) {
                slots[a] = std::make_unique<C>(size_t(n[0]), v);
                values.assign(cells, v);
            }
            else if(how == 3) {
                slots[a] = std::make_unique<C>(std::initializer_list<T>{
                    T(3), T(1), T(2)});
                values = {T(3), T(1), T(2)};
                n = {3};
            }
            else if(how == 4) {
                if constexpr(is_masked(S)) {
                    std::vector<fern::MaskedScalar<T>> scalars;
                    for(size_t i = 0; i < cells; ++i) {
                        scalars.emplace_back(values[i], marks[i]);
                    }
                    slots[a] = std::make_unique<C>(scalars);
                    listed = true;
                }
                else { slots[a] = std::make_unique<C>(values); }
            }
            else if(how == 5) {
                slots[a] = std::make_unique<C>(size_t(n[0]));
                values.assign(cells, T(0));
            }
        }
        if constexpr(!is_raster(S) && D == 2) {
            if(how == 2) {
                slots[a] = std::make_unique<C>(std::initializer_list<
                    std::initializer_list<T>>{{T(1), T(2)}, {T(3), T(4)},
                        {T(5), T(0)}});
                values = {T(1), T(2), T(3), T(4), T(5), T(0)};
                n = {3, 2};
            }
            else if(how == 3) {
                if constexpr(!is_masked(S)) {
                    slots[a] = std::make_unique<C>(size_t(n[0]), size_t(n[1]),
                        v);
                }
                else { slots[a] = sized<C, D>(n, v); }
                values.assign(cells, v);
            }
        }
        if(!listed) { marks.assign(values.size(), false); }
        if(!is_masked(S)) { marks.clear(); }
        j.i("how", how).is("shape", n).is("v", values).bs("n", marks);
        std::vector<double> ts;
        if(is_raster(S)) { ts.assign(t.begin(), t.end()); }
        j.is("t", ts);
    }

    // One step on slot a. Its name and arguments are added to j.
    void step(Rng& rng, int a, Json& j)
    {
        int const b = rng.range(0, 1);
        j.i("b", b + 1);
        size_t const cells = slots[a]->num_elements();
        T const v = value<T>(rng);
        switch(rng.range(0, 15)) {
            case 0: j.s("s", "make"); make(rng, a, j); return;
            case 1:
                j.s("s", "clone").i("x", 0);
                slots[a] = std::make_unique<C>(fern::clone<T>(*slots[b]));
                return;
            case 2:
                j.s("s", "clone").i("x", v);
                slots[a] = std::make_unique<C>(fern::clone<T>(*slots[b], v));
                return;
            case 3: {
                // By way of another value type.
                j.s("s", "clone").i("x", v);
                auto other = fern::clone<int16_t>(*slots[b], int16_t(7));
                slots[a] = std::make_unique<C>(fern::clone<T>(other, v));
                return;
            }
            case 4:
                if(!is_masked(S) && a != b) {
                    j.s("s", "copy");
                    if constexpr(!is_masked(S)) {
                        if(rng.chance(50)) {
                            slots[a] = std::make_unique<C>(*slots[b]);
                        }
                        else if(slots[a]->num_elements() ==
                                slots[b]->num_elements() &&
                                std::equal(slots[a]->shape(), slots[a]->shape()
                                    + D, slots[b]->shape())) {
                            *slots[a] = *slots[b];
                        }
                        else { slots[a] = std::make_unique<C>(*slots[b]); }
                    }
                }
                else {
                    // What was in slot a moves by way of a temporary.
                    j.s("s", "move");
                    slots[a] = std::make_unique<C>(std::move(*slots[a]));
                }
                return;
            case 5: case 6:
                if(cells > 0) {
                    size_t const i = rng.range(0, cells - 1);
                    j.s("s", "write").i("i", i + 1).i("x", v);
                    switch(rng.range(0, 2)) {
                        case 0: slots[a]->data()[i] = v; break;
                        case 1: fern::get(*slots[a], i) = v; break;
                        case 2: {
                            auto const* shape = slots[a]->shape();
                            if constexpr(D == 1) { (*slots[a])[i] = v; }
                            else if constexpr(D == 2) {
                                (*slots[a])[i / shape[1]][i % shape[1]] = v;
                            }
                            else {
                                (*slots[a])[i / shape[1] / shape[2]]
                                    [i / shape[2] % shape[1]][i % shape[2]] = v;
                            }
                        }
                    }
                    return;
                }
                break;
            case 7:
                if constexpr(is_masked(S)) {
                    if(cells > 0) {
                        size_t const i = rng.range(0, cells - 1);
                        bool const m = rng.chance(60);
                        j.s("s", "mark").i("i", i + 1).b("m", m);
                        slots[a]->mask().data()[i] = m;
                        return;
                    }
                }
                break;
            case 8:
                if constexpr(is_masked(S)) {
                    j.s("s", "set_mask").i("x", v);
                    slots[a]->set_mask(v);
                    return;
                }
                break;
            case 9: case 10:
                if constexpr(is_masked(S)) {
                    if(rng.chance(50)) { set_mask<uint8_t>(rng, a, j); }
                    else { set_mask<int32_t>(rng, a, j); }
                    return;
                }
                break;
            case 11:
                if constexpr(is_masked(S)) {
                    if(rng.chance(50)) { get_mask<uint8_t>(rng, a, j); }
                    else { get_mask<int32_t>(rng, a, j); }
                    return;
                }
                break;
            case 12:
                if constexpr(is_masked(S)) {
                    if(rng.chance(40)) {
                        j.s("s", "mask_all");
                        slots[a]->mask_all();
                    }
                    else {
                        j.s("s", "has").b("r", slots[a]->has_masked_values());
                    }
                    return;
                }
                break;
            case 13:
                j.s("s", "fill").i("x", v);
                slots[a]->fill(v);
                return;
            case 14:
                if constexpr(is_raster(S)) {
                    size_t const i = rng.range(0, 2 * D - 1);
                    int const x = rng.range(-9, 20);
                    j.s("s", "transform").i("i", i + 1).i("x", x);
                    if constexpr(S == masked_raster) {
                        if(rng.chance(50)) {
                            fern::set_transformation(*slots[a], i, x);
                            return;
                        }
                    }
                    slots[a]->transformation()[i] = x;
                    return;
                }
                break;
            default: break;
        }
        ask(rng, a, j);
    }

    template<typename U>
    void set_mask(Rng& rng, int a, Json& j)
    {
        fern::Array<U, D> mask(fern::clone<U>(
            static_cast<fern::Array<T, D> const&>(*slots[a])));
        std::vector<U> values;
        for(size_t i = 0; i < mask.num_elements(); ++i) {
            mask.data()[i] = rng.range(0, 3);
            values.push_back(mask.data()[i]);
        }
        U const x = rng.range(0, 3);
        if(rng.chance(30)) {
            j.s("s", "mask_from").is("l", values).i("x", 0);
            slots[a]->set_mask(mask);
        }
        else {
            j.s("s", "mask_from").is("l", values).i("x", x);
            slots[a]->set_mask(mask, x);
        }
    }

    template<typename U>
    void get_mask(Rng&, int a, Json& j)
    {
        auto mask(fern::clone<U>(static_cast<fern::Array<T, D> const&>(
            *slots[a]), U(17)));
        slots[a]->mask(mask);
        std::vector<int64_t> values;
        for(size_t i = 0; i < mask.num_elements(); ++i) {
            values.push_back(mask.data()[i]);
        }
        j.s("s", "mask_to").is("l", values);
    }

    // Questions. The answers are those of both the members and the functions.
    void ask(Rng&, int a, Json& j)
    {
        C const& c(*slots[a]);
        std::vector<int64_t> sizes{int64_t(fern::size(c)),
            int64_t(c.num_elements()), int64_t(c.size()),
            int64_t(c.num_dimensions()),
            int64_t(std::distance(c.begin(), c.end()))};
        for(int d = 0; d < D; ++d) { sizes.push_back(fern::size(c, d)); }
        std::vector<int64_t> indices, got, areas;
        if constexpr(D == 2) {
            for(size_t i = 0; i < c.shape()[0]; ++i) {
                for(size_t k = 0; k < c.shape()[1]; ++k) {
                    indices.push_back(fern::index(c, i, k));
                }
            }
        }
        for(size_t i = 0; i < c.num_elements(); ++i) {
            got.push_back(static_cast<int64_t>(fern::get(c, i)));
        }
        if constexpr(D == 2 && is_raster(S)) {
            areas = {int64_t(fern::cell_size(c, 0)),
                int64_t(fern::cell_size(c, 1)), int64_t(fern::cell_area(c))};
        }
        j.s("s", "ask").is("sizes", sizes).is("indices", indices)
            .is("got", got).is("areas", areas);
    }

    void run(Rng& rng, Json& head)
    {
        ev::begin(head);
        for(int k = 0; k < 2 + rng.range(4, 12); ++k) {
            int const a = k < 2 ? k : rng.range(0, 1);
            Json j;
            j.i("a", a + 1);
            if(k < 2) { j.s("s", "make"); make(rng, a, j); }
            else { step(rng, a, j); }
            j.raw("o", "[" + (slots[0] ? seen(slots[0].get()) : "{}") + "," +
                (slots[1] ? seen(slots[1].get()) : "{}") + "]");
            steps.push_back(j.text + "}");
        }
        head.raws("steps", steps);
        ev::end(head);
    }
};

char const* const names[] = {"array", "masked_array", "raster",
    "masked_raster"};

template<Sort S, typename T, int D>
void containers(Rng& rng)
{
    Json head;
    head.s("op", "containers").s("sort", names[S]).i("d", D);
    Program<S, T, D> program;
    program.run(rng, head);
}

// References to memory: what is written by one is read by the other.
template<typename T, int D>
void references(Rng& rng)
{
    Json head;
    head.s("op", "references").i("d", D);
    std::vector<int> n;
    size_t cells = 1;
    for(int d = 0; d < D; ++d) {
        n.push_back(rng.range(1, D == 1 ? 9 : 4));
        cells *= n.back();
    }
    std::vector<T> memory(cells);
    for(auto& x: memory) { x = value<T>(rng); }
    head.is("shape", n).is("v", memory);
    ev::begin(head);
    std::unique_ptr<fern::ArrayReference<T, D>> both[2];
    for(auto& r: both) {
        r = sized_reference<T, D>(memory.data(), n);
    }
    std::vector<std::string> steps;
    for(int k = 0; k < rng.range(3, 9); ++k) {
        Json j;
        size_t const i = rng.range(0, cells - 1);
        T const v = value<T>(rng);
        auto& r = *both[rng.range(0, 1)];
        auto const& other = *both[rng.range(0, 1)];
        fern::get(r, i) = v;
        std::vector<int64_t> sizes{int64_t(fern::size(other))}, got;
        for(int d = 0; d < D; ++d) { sizes.push_back(fern::size(other, d)); }
        for(size_t c = 0; c < cells; ++c) {
            got.push_back(static_cast<int64_t>(fern::get(other, c)));
        }
        j.i("i", i + 1).i("x", v).is("sizes", sizes).is("got", got)
            .is("memory", memory);
        steps.push_back(j.text + "}");
    }
    head.raws("steps", steps);
    ev::end(head);
}

// Masked scalars: three of them.
template<typename T>
void scalars(Rng& rng)
{
    using M = fern::MaskedScalar<T>;
    Json head;
    head.s("op", "scalars");
    ev::begin(head);
    M slots[3];
    std::vector<std::string> steps;
    auto add = [&](Json& j) {
        std::vector<int64_t> values;
        std::vector<bool> marks, same;
        for(M const& m: slots) {
            values.push_back(static_cast<int64_t>(m.value()));
            values.push_back(static_cast<int64_t>(static_cast<T const&>(m)));
            values.push_back(static_cast<int64_t>(fern::get(m)));
            marks.push_back(m.mask());
            for(M const& other: slots) { same.push_back(m == other); }
        }
        j.is("v", values).bs("n", marks).bs("same", same);
        steps.push_back(j.text + "}");
    };
    for(int k = 0; k < rng.range(4, 14); ++k) {
        Json j;
        int const a = rng.range(0, 2), b = rng.range(0, 2);
        T const v = value<T>(rng);
        bool const m = rng.chance(50);
        j.i("a", a + 1).i("b", b + 1).i("x", v).b("m", m);
        M& slot(slots[a]);
        switch(rng.range(0, 9)) {
            case 0: j.s("s", "new"); slot = M(); break;
            case 1: j.s("s", "value"); slot = M(v); break;
            case 2: j.s("s", "both"); slot = M(v, m); break;
            case 3: j.s("s", "copy"); slot = slots[b]; break;
            case 4: j.s("s", "copy"); slot = M(slots[b]); break;
            case 5: j.s("s", "assign"); slot = v; break;
            case 6: j.s("s", "set"); slot.value() = v; break;
            case 7: j.s("s", "set"); static_cast<T&>(slot) = v; break;
            case 8: j.s("s", "set"); fern::get(slot) = v; break;
            case 9: j.s("s", "mark"); slot.mask() = m; break;
        }
        add(j);
    }
    head.raws("steps", steps);
    ev::end(head);
}

} // namespace

int main(int argc, char** argv)
{
#if GROUP == 0
    ev::kinds() = {
        containers<array, int32_t, 1>, containers<masked_array, uint8_t, 1>,
        containers<masked_array, double, 1>, containers<array, float, 2>,
        containers<masked_array, int16_t, 2>, scalars<int32_t>,
        scalars<double>, references<int32_t, 1>};
#elif GROUP == 1
    ev::kinds() = {
        containers<raster, int32_t, 2>, containers<masked_raster, uint8_t, 2>,
        containers<masked_raster, float, 2>, containers<raster, double, 2>,
        containers<masked_raster, int64_t, 1>, containers<raster, int16_t, 1>,
        references<double, 2>, scalars<uint8_t>};
#else
    ev::kinds() = {
        containers<array, uint16_t, 3>, containers<masked_array, double, 3>,
        containers<masked_array, int32_t, 3>, containers<raster, float, 3>,
        containers<masked_raster, int32_t, 3>, containers<array, int64_t, 2>,
        references<int16_t, 3>, containers<masked_array, int8_t, 2>};
#endif
    return ev::main(argc, argv);
}
