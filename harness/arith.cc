// Records the arithmetic operations, checked and unchecked, for all pairs of
// types. Compile with -DIS_<operation>, -DHALF=<0|1>.
#include "arith_ops.h"

namespace {

template<typename Op, typename T1, typename... T2>
void against() { (ev::kinds().push_back(binary<Op, T1, T2, 1, 1>), ...); }

// All pairs of two 8 bit types: event i of a kind takes the first argument's
// values from a block. 256 events cover everything.
template<typename Op, typename T1, typename T2>
void block(Rng& rng)
{
    int first = (rng.index / ev::kinds().size()) % 256;
    T2 b = static_cast<T2>(first);
    bool plain = false;
    Shape s{1, 256};
    binary_with<Op, T1, T2, 1, 0>(rng, s, plain, false,
        [&](size_t i) { return static_cast<T1>(i); },
        [&](size_t) { return b; });
}

} // namespace

template<typename Op>
void binary_kinds()
{
    using i8 = int8_t; using u8 = uint8_t; using i16 = int16_t;
    using u16 = uint16_t; using i32 = int32_t; using u32 = uint32_t;
    using i64 = int64_t; using u64 = uint64_t;
#if HALF == 0
    if(std::getenv("BLOCKS")) {
        auto& k = ev::kinds();
        k.push_back(block<Op, i8, i8>);
        k.push_back(block<Op, u8, u8>);
        k.push_back(block<Op, i8, u8>);
        k.push_back(block<Op, u8, i8>);
        return;
    }
#endif
#if HALF == 0
    against<Op, i8, i8, u8, i16, u16, i32, u32, i64, u64, float>();
    against<Op, u8, i8, u8, i16, u16, i32, u32, i64, u64, double>();
    against<Op, i16, i8, u8, i16, u16, i32, u32, i64, u64, float>();
    against<Op, u16, i8, u8, i16, u16, i32, u32, i64, u64, double>();
#else
    against<Op, i32, i8, u8, i16, u16, i32, u32, i64, u64, float, double>();
    against<Op, u32, i8, u8, i16, u16, i32, u32, i64, u64>();
    against<Op, i64, i8, u8, i16, u16, i32, u32, i64, u64>();
    against<Op, u64, i8, u8, i16, u16, i32, u32, i64, u64, double>();
    against<Op, float, i8, u16, float, double>();
    against<Op, double, u8, i32, float, double>();
    against<Huge<Op>, float, float>();
    against<Huge<Op>, double, double>();
#endif
}

int main(int argc, char** argv)
{
#if defined(IS_ADD)
    binary_kinds<Add>();
#elif defined(IS_SUBTRACT)
    binary_kinds<Subtract>();
#elif defined(IS_MULTIPLY)
    binary_kinds<Multiply>();
#elif defined(IS_DIVIDE)
    binary_kinds<Divide>();
#else
    unary_shapes<Absolute, int8_t>();
    unary_shapes<Absolute, int16_t>();
    unary_shapes<Absolute, int32_t>();
    unary_shapes<Absolute, int64_t>();
    unary_shapes<Absolute, uint8_t>();
    unary_shapes<Absolute, uint32_t>();
    unary_shapes<Absolute, float>();
    unary_shapes<Absolute, double>();
#endif
    return ev::main(argc, argv);
}
