PROPERTY = "C17"
NEEDS = "the reduction option together with a coefficient of the destination that is neither 0 nor 1"
BREAKS = "sumprod_fiber requests a reduction although it scales the old contents of its destination, which a reduction does not see"
EDITS = [("src/starpu/sumprod_fiber.cc", """    else
    {
        dst_mode = STARPU_RW;
    }
    // Codelet arguments""", """    else if(redux != 0)
    {
        dst_mode = STARPU_REDUX;
    }
    else
    {
        dst_mode = STARPU_RW;
    }
    // Codelet arguments""")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::sumprod_fiber::init();
    starpu::Handle h;
    starpu::sumprod_fiber::submit<fp64_t>(1, 1, 1, 1.0, h, h, 1.0, h, 1);
    CHECK(tasks[0].mode[2] == STARPU_REDUX);
    starpu::sumprod_fiber::submit<fp64_t>(1, 1, 1, 1.0, h, h, 0.5, h, 1);
    CHECK(tasks[1].mode[2] != STARPU_REDUX);
    std::_Exit(0);
}
'''
