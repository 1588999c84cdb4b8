PROPERTY = "C50"
NEEDS = "a fiber sum over many columns whose additions do not all round to zero error; exact sums (small integers) are unaffected"
BREAKS = "the compensation term of the fiber sum is reset at the start of every column, so the rounding errors of the columns accumulate"
EDITS = [("src/kernel/sum_fiber/cpu.cc", """                const T *src_slice = src + ((i1+b*n)*k+i2)*m;
""", """                const T *src_slice = src + ((i1+b*n)*k+i2)*m;
                c = zero;
""")]
DEMO_CC = r'''
#include "nntile/kernel/sum_fiber/cpu.hh"
#include <cstdio>
#include <cmath>
#include <vector>
using namespace nntile;
int main()
{
    for(float v: {0.1f, 0.7f, 1.3f})
    {
        const Index n = 1000000;
        std::vector<float> x(n, v);
        float y[1] = {5};
        kernel::sum_fiber::cpu<fp32_t>(1, n, 1, 1, 1.0f, x.data(), 0.0f, y);
        double ref = double(v) * n;
        if(!(std::fabs(y[0]-ref) <= 4e-7*ref)) { std::printf("%g: %.9g instead of %.9g\n", v, y[0], ref); return 1; }
    }
    return 0;
}
'''
