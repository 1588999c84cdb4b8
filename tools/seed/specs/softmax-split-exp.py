PROPERTY = "C44"
NEEDS = "elements of a softmax slice beyond the range of the exponential (above 88 in single precision)"
BREAKS = "softmax gives nan for large finite inputs"
EDITS = [("src/kernel/softmax/cpu.cc", """alpha * std::exp(val-max) / sum;
""", """alpha * std::exp(val) / (std::exp(max)*sum);
""")]
DEMO_CC = r'''
#include "nntile/kernel/softmax/cpu.hh"
#include <cstdio>
#include <cmath>
#include <initializer_list>
using namespace nntile;
int main()
{
    for(float big: {1.f, 50.f, 1000.f, -1000.f})
    {
        float ms[2] = {big, 1 + std::exp(-1.f)}, s[2] = {big, big-1}, x[2];
        kernel::softmax::cpu<fp32_t>(1, 1, 2, ms, s, 2.f, x);
        float r = 2 / ms[1];
        if(!(std::fabs(x[0]-r) <= 1e-4) || !(std::fabs(x[1]-r*std::exp(-1.f)) <= 1e-4))
        {
            std::printf("%g: %g %g\n", big, x[0], x[1]);
            return 1;
        }
    }
    return 0;
}
'''
