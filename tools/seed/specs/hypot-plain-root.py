PROPERTY = "C48"
NEEDS = "elements whose squares are out of range (above 1.8e19 or below 1e-23 in single precision)"
BREAKS = "hypot overflows to infinity, or vanishes, although its result is representable"
EDITS = [("src/kernel/hypot/cpu.cc", """                dst[i] = std::hypot(alpha*src[i], beta*dst[i]);
""", """                T x = alpha * src[i], y = beta * dst[i];
                dst[i] = std::sqrt(x*x + y*y);
""")]
DEMO_CC = r'''
#include "nntile/kernel/hypot/cpu.hh"
#include <cstdio>
#include <cmath>
#include <initializer_list>
using namespace nntile;
int main()
{
    for(double s: {1., 1e-3, 1e200, 1e-200})
    {
        double x = 3*s, y = 2*s;
        kernel::hypot::cpu<fp64_t>(1, 1.0, &x, 2.0, &y);
        if(!(std::fabs(y/s-5) <= 1e-9)) { std::printf("%g: %g\n", s, y); return 1; }
    }
    return 0;
}
'''
