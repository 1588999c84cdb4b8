PROPERTY = "C27"
NEEDS = "double precision data raised to a power other than -1"
BREAKS = "the exponent passes through single precision in the double precision instance"
EDITS = [("src/kernel/pow/cpu.cc", """    for(Index i = 0; i < nelems; ++i)
    {
        T z = data[i];
        if(exp == -1)""", """    const fp32_t power = exp;
    for(Index i = 0; i < nelems; ++i)
    {
        T z = data[i];
        if(power == -1)"""), ("src/kernel/pow/cpu.cc", "std::pow(z, exp)", "std::pow(z, T{power})")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::pow::init();
    starpu::Handle h;
    starpu::pow::submit<fp64_t>(1, 1.0, 0.1, h);
    double x = 1e100;
    run(tasks[0], {&x});
    CHECK(std::fabs(x / 1e10 - 1) < 1e-12);
    std::_Exit(0);
}
'''
