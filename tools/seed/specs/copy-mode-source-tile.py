PROPERTY = "C51"
NEEDS = "a copy between tensors with different tiles whose first destination tile is covered from an element on that starts a source tile but no destination tile"
BREAKS = "the mode of the first copy into a partially overwritten destination tile is STARPU_W: the runtime may hand over a buffer without the old contents, so the elements outside of the intersection are lost"
EDITS = [("src/tensor/copy_intersection.cc", "                if(dst_tile_index[j]*dst.basetile_shape[j] != dst_start[j])\n", "                if(dst_start[j] % src.basetile_shape[j] != 0)\n")]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tensor/copy_intersection.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits s({4}, {2}), d({6}, {3});
    std::vector<int> two(2, 0);
    tensor::Tensor<fp64_t> src(s, two, tag), dst(d, two, tag);
    // elements 2 to 5 of the destination; its first tile keeps 0 and 1
    tensor::copy_intersection_async<fp64_t>(src, {2}, dst, {0});
    CHECK(tasks.size() >= 2);
    auto first = static_cast<starpu_data_handle_t>(dst.get_tile_handle(0));
    int n = 0;
    for(auto &t: tasks)
    {
        for(size_t i = 0; i < t.handle.size(); ++i)
        {
            if(t.handle[i] == first)
            {
                CHECK((t.mode[i] & STARPU_RW) == STARPU_RW);
                ++n;
            }
        }
    }
    CHECK(n == 1);
    std::_Exit(0);
}
'''
