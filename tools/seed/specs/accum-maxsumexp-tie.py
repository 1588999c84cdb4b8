PROPERTY = "C40"
NEEDS = "two partial softmax statistics whose maxima are equal, e.g. tiles that both hold the largest logit"
BREAKS = "the sum of exponents of one of two partial statistics with the same maximum is lost"
EDITS = [("src/kernel/accumulate_maxsumexp/cpu.cc", """            else
            {
                dst[2*i+1] += src[2*i+1]*std::exp(src[2*i]-dst[2*i]);
            }""", """            else if(src[2*i] < dst[2*i])
            {
                dst[2*i+1] += src[2*i+1]*std::exp(src[2*i]-dst[2*i]);
            }""")]
DEMO_CC = r'''
#include "nntile/kernel/accumulate_maxsumexp/cpu.hh"
#include <cstdio>
#include <cmath>
using namespace nntile;
int main()
{
    // (max, sum of exponents): equal maxima, smaller, larger, empty
    double src[10] = {2, 1.5, 1, 2, 3, 1, 0, 0, 2, 1}, dst[10] = {2, 2.5, 2, 1, 2, 1, 2, 3, 0, 0};
    double ref[10] = {2, 4, 2, 1+2*std::exp(-1.), 3, 1+std::exp(-1.), 2, 3, 2, 1};
    kernel::accumulate_maxsumexp::cpu<fp64_t>(5, src, dst);
    for(int i = 0; i < 10; ++i)
        if(!(std::fabs(dst[i]-ref[i]) <= 1e-12)) { std::printf("%d: %f != %f\n", i, dst[i], ref[i]); return 1; }
    return 0;
}
'''
