PROPERTY = "C06"
NEEDS = "a blocking gemm_ex whose tasks are still running when it returns"
BREAKS = "the blocking gemm_ex waits only if several tiles are multiplied in a row"
EDITS = [("src/tensor/gemm_ex.cc", """            redux);
    starpu_task_wait_for_all();
""", """            redux);
    if(C.grid.nelems > 1)
    {
        starpu_task_wait_for_all();
    }
""")]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tensor/gemm_ex.hh"
static int waits = 0;
#undef starpu_task_wait_for_all
extern "C" __attribute__((visibility("default"))) int starpu_task_wait_for_all(void)
{
    ++waits;
    return 0;
}
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits tr({4, 4}, {4, 4});
    std::vector<int> d(1, 0);
    tensor::Tensor<fp32_t> A(tr, d, tag), B(tr, d, tag), C(tr, d, tag);
    TransOp n(TransOp::NoTrans);
    waits = 0;
    tensor::gemm_ex<fp32_t>(1.0, n, A, n, B, 0.0, C, 1, 0, 0);
    CHECK(tasks.size() == 1);
    CHECK(waits > 0);
    std::_Exit(0);
}
'''
