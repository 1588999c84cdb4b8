PROPERTY = "C40"
NEEDS = "hypot with beta equal to zero (the first accumulation into a fresh buffer) and a negative alpha"
BREAKS = "a negative alpha gives a negative result when nothing is accumulated"
EDITS = [("src/kernel/hypot/cpu.cc", """                dst[i] = std::fabs(alpha * src[i]);
""", """                dst[i] = alpha * std::fabs(src[i]);
""")]
DEMO_CC = r'''
#include "nntile/kernel/hypot/cpu.hh"
#include <cstdio>
#include <cmath>
#include <initializer_list>
using namespace nntile;
int main()
{
    for(double alpha: {0., 1., 2., -1.5}) for(double beta: {0., 1., -0.5})
    {
        double src[3] = {1, -2, 0}, dst[3] = {3, 0, -4};
        double old[3] = {3, 0, -4};
        kernel::hypot::cpu<fp64_t>(3, alpha, src, beta, dst);
        for(int i = 0; i < 3; ++i)
        {
            double r = std::hypot(alpha*src[i], beta*old[i]);
            if(!(std::fabs(dst[i]-r) <= 1e-12)) { std::printf("%f %f: %f != %f\n", alpha, beta, dst[i], r); return 1; }
        }
    }
    return 0;
}
'''
