PROPERTY = "C09"
NEEDS = "gemm_ex with a transposed first operand and different numbers of tiles along m and k"
BREAKS = "tiles of a transposed first operand are looked up with the wrong stride"
EDITS = [("src/tensor/gemm_ex.cc", "            opA_stride = {k, 1};\n", "            opA_stride = {m, 1};\n")]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tensor/gemm_ex.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits a({6, 4}, {2, 2}), b({6, 2}, {2, 2}), c({4, 2}, {2, 2});
    std::vector<int> six(6, 0), three(3, 0), two(2, 0);
    tensor::Tensor<fp32_t> A(a, six, tag), B(b, three, tag), C(c, two, tag);
    TransOp n(TransOp::NoTrans), t(TransOp::Trans);
    tensor::gemm_ex_async<fp32_t>(1.0, t, A, n, B, 0.0, C, 1, 0, 0);
    CHECK(tasks.size() == 6);
    for(int i = 0; i < 2; ++i)
        for(int k = 0; k < 3; ++k)
        {
            bool found = false;
            for(auto &x: tasks)
                found = found || (x.handle[0] == static_cast<starpu_data_handle_t>(A.get_tile_handle(3*i+k))
                    && x.handle[1] == static_cast<starpu_data_handle_t>(B.get_tile_handle(k))
                    && x.handle[2] == static_cast<starpu_data_handle_t>(C.get_tile_handle(i)));
            CHECK(found);
        }
    std::_Exit(0);
}
'''
