PROPERTY = "C12"
NEEDS = "pow of double precision data"
BREAKS = "the task kind of double precision pow runs the single precision implementation"
EDITS = [("src/starpu/pow.cc", "            {cpu<fp64_t>},\n", "            {cpu<fp32_t>},\n")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::pow::init();
    starpu::Handle h;
    starpu::pow::submit<fp64_t>(1, 3.0, 2.0, h);
    double x = 5;
    run(tasks[0], {&x});
    CHECK(std::fabs(x - 75) < 1e-12);
    std::_Exit(0);
}
'''
