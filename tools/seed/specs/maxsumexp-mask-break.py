PROPERTY = "C40"
NEEDS = "a mask that hides an element in the middle of a row, i.e. not a causal mask"
BREAKS = "everything behind the first masked element of a row is left out of the softmax statistics"
EDITS = [("src/kernel/maxsumexp/cpu.cc", """                // Ignore -inf value, which comes from mask
                if(std::isinf(val))
                {
                    continue;
                }
                // Update max and sum of exponents
""", """                // Ignore -inf value, which comes from mask
                if(std::isinf(val))
                {
                    break;
                }
                // Update max and sum of exponents
""")]
DEMO_CC = r'''
#include "nntile/kernel/maxsumexp/cpu.hh"
#include <cstdio>
#include <cmath>
#include <limits>
using namespace nntile;
int main()
{
    const double I = -std::numeric_limits<double>::infinity();
    double rows[4][4] = {{1, 2, 3, 4}, {1, I, 3, 2}, {I, I, 1, 1}, {2, 1, I, I}};
    for(auto &r: rows)
    {
        double ms[2] = {0, 0}, max = I, sum = 0;
        for(double v: r) max = std::fmax(max, v);
        for(double v: r) sum += std::exp(v-max);
        kernel::maxsumexp::cpu<fp64_t>(1, 1, 4, r, ms);
        if(!(std::fabs(ms[0]-max) <= 1e-12 and std::fabs(ms[1]-sum) <= 1e-12))
        { std::printf("%f %f != %f %f\n", ms[0], ms[1], max, sum); return 1; }
    }
    return 0;
}
'''
