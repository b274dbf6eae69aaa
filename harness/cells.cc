// Records operations on cells, other than arithmetic, 1D and all types.
// Compile with -DGROUP=<0..3>.
#include "cell_ops.h"

namespace {

template<typename Op, typename T> void one()
{
    ev::kinds().push_back(unary<Op, T, 1>);
}

template<typename Op, typename T1, typename T2> void two()
{
    ev::kinds().push_back(binary<Op, T1, T2, 1, 1>);
}

template<typename Op> void floats1()
{
    one<Op, float>();
    one<Op, double>();
}

template<typename Op> void same_types()
{
    two<Op, int8_t, int8_t>();
    two<Op, uint8_t, uint8_t>();
    two<Op, int16_t, int16_t>();
    two<Op, uint16_t, uint16_t>();
    two<Op, int32_t, int32_t>();
    two<Op, uint32_t, uint32_t>();
    two<Op, int64_t, int64_t>();
    two<Op, uint64_t, uint64_t>();
    two<Op, float, float>();
    two<Op, double, double>();
}

template<typename Op> void mixed_types()
{
    two<Op, int8_t, int64_t>();
    two<Op, int32_t, int16_t>();
    two<Op, uint16_t, uint64_t>();
    two<Op, uint32_t, uint8_t>();
    two<Op, float, double>();
    two<Op, double, float>();
}

template<typename Op> void truth()
{
    two<Op, bool, bool>();
    two<Op, uint8_t, int8_t>();
    two<Op, int32_t, bool>();
    two<Op, int16_t, uint16_t>();
    two<Op, int64_t, uint32_t>();
    two<Op, double, bool>();
    two<Op, float, uint8_t>();
    two<Op, double, double>();
}

} // namespace

int main(int argc, char** argv)
{
#if GROUP == 0
    same_types<Equal>();
    same_types<Less>();
    mixed_types<Less>();
    same_types<LessEqual>();
    mixed_types<LessEqual>();
    two<LessU8, int16_t, int16_t>();
    two<LessU8, double, double>();
#elif GROUP == 1
    same_types<Greater>();
    mixed_types<Greater>();
    same_types<GreaterEqual>();
    mixed_types<GreaterEqual>();
    same_types<Min>();
    same_types<Max>();
    two<GreaterI32, int8_t, int8_t>();
    two<GreaterI32, float, float>();
#elif GROUP == 2
    truth<And>();
    truth<Or>();
    truth<Xor>();
    truth<Nor>();
    truth<Xnor>();
    two<XorI16, int16_t, uint8_t>();
    two<AndF64, uint8_t, uint8_t>();
    one<Not, bool>();
    one<Not, int8_t>();
    one<Not, uint32_t>();
    one<Not, int64_t>();
    one<Not, double>();
    one<NotU8, int16_t>();
    one<NotU8, bool>();
    auto& k = ev::kinds();
    k.push_back(defined<int16_t, bool, 0>);
    k.push_back(defined<int32_t, uint8_t, 1>);
    k.push_back(defined<float, int32_t, 2>);
#else
    floats1<Floor>();
    floats1<Ceil>();
    floats1<Round>();
    floats1<Trunc>();
    floats1<FloorHuge>();
    floats1<FloorNear>();
    floats1<FloorWide>();
    floats1<CeilHuge>();
    floats1<CeilNear>();
    floats1<CeilWide>();
    floats1<RoundHuge>();
    floats1<RoundNear>();
    floats1<RoundWide>();
    floats1<TruncHuge>();
    floats1<TruncNear>();
    floats1<TruncWide>();
    floats1<Sqrt>();
    floats1<Log>();
    floats1<Log2>();
    floats1<Log10>();
    floats1<Tgamma>();
    floats1<Sin>();
    floats1<Cos>();
    floats1<Tan>();
    floats1<Acos>();
    floats1<Asin>();
    floats1<Atan>();
    floats1<Factorial>();
    one<Factorial, int8_t>();
    one<Factorial, uint8_t>();
    one<Factorial, int16_t>();
    one<Factorial, uint16_t>();
    one<Factorial, int32_t>();
    one<Factorial, uint32_t>();
    one<Factorial, int64_t>();
    one<Factorial, uint64_t>();
    two<Pow, float, float>();
    two<Pow, double, double>();
#endif
    return ev::main(argc, argv);
}
