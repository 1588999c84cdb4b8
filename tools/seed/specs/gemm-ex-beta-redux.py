PROPERTY = "C10"
NEEDS = "a norm over several tiles with the reduction option switched off and a coefficient of the output other than 1"
BREAKS = "every tile along the axis scales the destination again unless a reduction is requested"
EDITS = [("src/tensor/gemm_ex.cc", "                                A_tile_handle, B_tile_handle, one,\n", "                                A_tile_handle, B_tile_handle, redux != 0 ? beta : one,\n")]
NEEDS = "gemm_ex over several tiles along the inner dimension with the reduction option and beta other than 1"
BREAKS = "with the reduction option every further product applies beta again"
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tensor/gemm_ex.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits a({2, 6}, {2, 2}), b({6, 2}, {2, 2}), c({2, 2}, {2, 2});
    std::vector<int> three(3, 0), one(1, 0);
    tensor::Tensor<fp32_t> A(a, three, tag), B(b, three, tag), C(c, one, tag);
    TransOp n(TransOp::NoTrans);
    tensor::gemm_ex_async<fp32_t>(1.0, n, A, n, B, 0.5, C, 1, 0, 1);
    CHECK(tasks.size() == 3);
    for(int i = 0; i < 3; ++i)
    {
        auto args = (starpu::gemm_ex::args_t<fp32_t> *)tasks[i].args;
        CHECK(args->beta == (i == 0 ? 0.5f : 1.0f));
    }
    std::_Exit(0);
}
'''
