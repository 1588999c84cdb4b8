PROPERTY = "C14"
NEEDS = "a tensor whose extent along the axis is no multiple of the tile extent"
BREAKS = "add_slice3 passes the extent of a full tile for every tile along the axis, also for the smaller last one"
EDITS = [("src/tensor/add_slice3.cc", "                k = dst_tile_traits.shape[axis];\n", "                k = dst.basetile_shape[axis];\n")]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tensor/add_slice3.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits s({2}, {2}), d({2, 5}, {2, 3});
    std::vector<int> one(1, 0), two(2, 0);
    tensor::Tensor<fp64_t> src1(s, one, tag), src2(d, two, tag), dst(d, two, tag);
    tensor::add_slice3_async<fp64_t>(1.0, src1, 1.0, src2, dst, 1);
    CHECK(tasks.size() == 2);
    auto a = (starpu::add_slice3::args_t<fp64_t> *)tasks[0].args;
    auto b = (starpu::add_slice3::args_t<fp64_t> *)tasks[1].args;
    CHECK(a->m*a->n*a->k == 6);
    CHECK(b->m*b->n*b->k == 4);
    std::_Exit(0);
}
'''
