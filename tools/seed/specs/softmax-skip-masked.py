PROPERTY = "C02"
NEEDS = "an input element equal to minus infinity (a masked position) and a destination buffer with other contents than zero"
BREAKS = "softmax declares its destination write-only but leaves the elements of masked positions as they were"
EDITS = [("src/kernel/softmax/cpu.cc", """                else
                {
                    dst[src_dst_offset] = zero;
                }
""", "")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::softmax::init();
    starpu::Handle h;
    starpu::softmax::submit<fp64_t>(1, 2, 3, h, h, 1.0, h);
    CHECK(tasks.size() == 1);
    double inf = INFINITY, mse[4] = {1, 2, 1, 2}, src[6] = {1, -inf, 1, 1, 1, -inf};
    double dst[6];
    for(auto &x: dst) x = 77;
    run(tasks[0], {mse, src, dst});
    CHECK((tasks[0].mode[2] & STARPU_R) || dst[1] == 0);
    CHECK((tasks[0].mode[2] & STARPU_R) || dst[5] == 0);
    CHECK(dst[0] == 0.5);
    std::_Exit(0);
}
'''
