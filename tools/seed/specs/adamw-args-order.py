PROPERTY = "C03"
NEEDS = "AdamW with weight decay different from the smoothing constant"
BREAKS = "the argument block of the AdamW task receives eps as weight decay and the other way round"
EDITS = [("src/starpu/adamw_step.cc", "    args->eps = eps;\n", "    args->eps = weight_decay;\n"), ("src/starpu/adamw_step.cc", "    args->weight_decay = weight_decay;\n", "    args->weight_decay = eps;\n")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::adamw_step::init();
    starpu::Handle h;
    starpu::adamw_step::submit<fp64_t>(1, 1, 0.9, 0.999, 1e-8, 0.1, 0.5, h, h, h, h);
    double g = 0, m = 0, v = 0, p = 1;
    run(tasks[0], {&g, &m, &v, &p});
    CHECK(std::fabs(p - 0.95) < 1e-12);
    std::_Exit(0);
}
'''
