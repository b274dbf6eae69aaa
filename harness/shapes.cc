// Records operations on all combinations of scalars and arrays.
// Compile with -DGROUP=<0..2>.
#include "cell_ops.h"

int main(int argc, char** argv)
{
#if GROUP == 0
    binary_shapes<Add, int8_t, int8_t>();
    binary_shapes<Subtract, uint8_t, int16_t>();
    binary_shapes<Divide, int16_t, int8_t>();
    binary_shapes<Multiply, int8_t, uint8_t>();
    binary_shapes<Divide, double, double>();
#elif GROUP == 1
    binary_shapes<Less, float, double>();
    binary_shapes<And, uint8_t, int16_t>();
    binary_shapes<PowSmall, double, double>();
    binary_shapes<Min, int16_t, int16_t>();
    binary_shapes<Equal, bool, bool>();
#else
    unary_shapes<Absolute, int8_t>();
    unary_shapes<Absolute, double>();
    unary_shapes<Sqrt, double>();
    unary_shapes<Not, uint8_t>();
    unary_shapes<Floor, float>();
    unary_shapes<Tgamma, double>();
    unary_shapes<Factorial, int16_t>();
    auto& k = ev::kinds();
    k.push_back(defined<int16_t, uint8_t, 0>);
    k.push_back(defined<uint8_t, uint8_t, 1>);
    k.push_back(defined<double, bool, 2>);
#endif
    return ev::main(argc, argv);
}
