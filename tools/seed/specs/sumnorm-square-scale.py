PROPERTY = "C48"
NEEDS = "elements whose squares are out of range, with a larger element after a smaller one"
BREAKS = "the running norm becomes nan for large finite inputs"
EDITS = [("src/kernel/sumnorm/cpu.cc", """                    T tmp = scale / absval;
                    scale = absval;
                    ssq = ssq*tmp*tmp + one;
""", """                    ssq = one + ssq*(scale*scale)/(absval*absval);
                    scale = absval;
""")]
DEMO_CC = r'''
#include "nntile/kernel/sumnorm/cpu.hh"
#include <cstdio>
#include <cmath>
#include <initializer_list>
using namespace nntile;
int main()
{
    for(double s: {1., 1e-3, 1e200, 1e-200})
    {
        double x[3] = {3*s, -4*s, 12*s}, y[2] = {0, 0};
        kernel::sumnorm::cpu<fp64_t>(1, 1, 3, x, y);
        if(!(std::fabs(y[1]/s-13) <= 1e-9) || !(std::fabs(y[0]/s-11) <= 1e-9)) { std::printf("%g: %g %g\n", s, y[0], y[1]); return 1; }
    }
    return 0;
}
'''
