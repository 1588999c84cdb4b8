PROPERTY = "C48"
NEEDS = "slices whose mean square is out of range although the normalized values are ordinary"
BREAKS = "normalization of large finite inputs gives zeros or nan"
EDITS = [("src/kernel/normalize/cpu.cc", """                    T ssq = one - tmp*tmp;
                    T tmp2 = reps / rms;
                    ssq += tmp2*tmp2;
                    dev = rms * std::sqrt(ssq);
""", """                    dev = std::sqrt(rms*rms - mean*mean + eps);
""")]
DEMO_CC = r'''
#include "nntile/kernel/normalize/cpu.hh"
#include <cstdio>
#include <cmath>
#include <initializer_list>
using namespace nntile;
int main()
{
    for(double s: {1., 1e3, 1e200})
    {
        // elements 0 and 2*s: mean s, deviation s
        double g = 1, b = 0, st[2] = {2*s, 2*s}, x[2] = {0, 2*s};
        kernel::normalize::cpu<fp64_t>(1, 1, 2, 2, 1e-10, &g, &b, st, x);
        if(!(std::fabs(x[0]+1) <= 1e-6) || !(std::fabs(x[1]-1) <= 1e-6)) { std::printf("%g: %g %g\n", s, x[0], x[1]); return 1; }
    }
    return 0;
}
'''
