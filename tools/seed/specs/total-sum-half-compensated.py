PROPERTY = "C50"
NEEDS = "a loss over many outputs in single precision whose additions do not round exactly"
BREAKS = "of the two additions per output only the first one takes the compensation term into account; the rounding error of the first is dropped by the second, so the error of the total grows with the number of outputs"
EDITS = [("src/kernel/total_sum_accum/cpu.cc", """y = - src[labels[i] + i*n_labels] - c;""", """y = - src[labels[i] + i*n_labels];""")]
DEMO_CC = r'''
#include "nntile/kernel/total_sum_accum/cpu.hh"
#include <cstdio>
#include <cmath>
#include <vector>
using namespace nntile;
int main()
{
    for(float v: {0.1f, 0.7f, 1.3f, 2.9f})
    {
        const Index n = 400000;
        std::vector<float> lse(n, v), x(2*n, -0.37f);
        std::vector<Index> l(n, 1);
        float y[1] = {0};
        kernel::total_sum_accum::cpu<fp32_t>(1.0f, 2, n, lse.data(), x.data(), l.data(), y);
        double ref = (double(v) + double(0.37f)) * n;
        if(!(std::fabs(y[0]-ref) <= 4e-7*ref)) { std::printf("%g: %.9g instead of %.9g\n", v, y[0], ref); return 1; }
    }
    return 0;
}
'''
