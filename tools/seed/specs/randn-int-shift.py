PROPERTY = "C52"
NEEDS = "a tile that begins at or beyond the element 2^31 of its underlying tensor (tensors of more than 8 GiB in single precision)"
BREAKS = "the index of the first element is accumulated in 32 bits, so such tiles repeat or jump to random numbers of other elements"
EDITS = [("src/kernel/randn/cpu.cc", "    Index shift = start[ndim-1];\n", "    int shift = start[ndim-1];\n")]
DEMO_CC = r'''
#include "nntile/kernel/randn/cpu.hh"
#include "nntile/base_types.hh"
#include "random.h"
#include <cstdio>
#include <cstdlib>
using namespace nntile;
int main()
{
    const Index und[2] = {100000, 60000}, start[2] = {7, 50000}, shape[2] = {1, 1}, st[2] = {1, 1};
    const Index one[1] = {1}, zero[1] = {0};
    double a, b;
    Index tmp[4];
    kernel::randn::cpu<fp64_t>(2, 1, 5, 0.0, 1.0, start, shape, und, &a, st, tmp);
    unsigned long long seed = 5;
    seed = CORE_rnd64_jump(5000000007LL, seed);
    kernel::randn::cpu<fp64_t>(1, 1, seed, 0.0, 1.0, zero, one, one, &b, one, tmp);
    if(a != b) { std::printf("%g %g\n", a, b); std::_Exit(1); }
    std::_Exit(0);
}
'''
