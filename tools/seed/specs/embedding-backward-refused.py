PROPERTY = "C04"
NEEDS = "the runtime refuses the task with any error other than -ENODEV"
BREAKS = "embedding_backward reports only one of the errors of task insertion"
EDITS = [("src/starpu/embedding_backward.cc", "    if(ret != 0)\n", "    if(ret == -19)\n")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::embedding_backward::init();
    starpu::Handle h;
    for(int code: {-19, -22, -12})
    {
        insert_result = code;
        bool thrown = false;
        try { starpu::embedding_backward::submit<fp64_t>(1, 1, 1, 0, 1, h, h, h, 0); }
        catch(const std::runtime_error &) { thrown = true; }
        CHECK(thrown);
    }
    std::_Exit(0);
}
'''
