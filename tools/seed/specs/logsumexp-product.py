PROPERTY = "C44"
NEEDS = "a maximum beyond the range of the exponential"
BREAKS = "log-sum-exp of large finite logits is infinite, and so is the loss"
EDITS = [("src/kernel/logsumexp/cpu.cc", """maxsumexp[2*i] + std::log(maxsumexp[2*i+1]);
""", """std::log(std::exp(maxsumexp[2*i]) * maxsumexp[2*i+1]);
""")]
DEMO_CC = r'''
#include "nntile/kernel/logsumexp/cpu.hh"
#include <cstdio>
#include <cmath>
#include <initializer_list>
using namespace nntile;
int main()
{
    for(double big: {0., 10., 1000., -1000.})
    {
        double ms[2] = {big, 1.5}, x = 0;
        kernel::logsumexp::cpu<fp64_t>(1, ms, &x);
        if(!(std::fabs(x-(big+std::log(1.5))) <= 1e-9)) { std::printf("%g: %g\n", big, x); return 1; }
    }
    return 0;
}
'''
