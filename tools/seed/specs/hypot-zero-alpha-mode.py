PROPERTY = "C01"
NEEDS = "hypot with zero alpha and a beta other than 0 and 1"
BREAKS = "the destination is declared write-only as soon as one of the coefficients is zero, although the kernel scales the old contents when only alpha is zero"
EDITS = [("src/starpu/hypot.cc", "    else if(beta == zero)\n", "    else if(alpha*beta == zero)\n")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::hypot::init();
    starpu::Handle h;
    starpu::hypot::submit<fp64_t>(1, 0.0, h, 2.0, h);
    CHECK(tasks.size() == 1);
    CHECK(tasks[0].mode[1] == STARPU_RW);
    starpu::hypot::submit<fp64_t>(1, 1.0, h, 0.0, h);
    CHECK(tasks[1].mode[1] == STARPU_W);
    std::_Exit(0);
}
'''
