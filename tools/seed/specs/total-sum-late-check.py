PROPERTY = "C07"
NEEDS = "total_sum_accum of tensors with several tiles whose labels do not match in a later tile only"
BREAKS = "the shapes of labels and src are compared tile by tile between submissions instead of before the first of them"
EDITS = [("src/tensor/total_sum_accum.cc", """        if(labels.shape[i] != src.shape[i+1])
        {
            throw std::runtime_error("labels.shape[i] != src.shape[i+1]");
        }
""", ""), ("src/tensor/total_sum_accum.cc", """        auto src_tile_handle = src.get_tile_handle(i);
""", """        auto src_tile_handle = src.get_tile_handle(i);
        auto src_tile_traits = src.get_tile_traits(i);
        for(Index j = 0; j < labels.ndim; ++j)
        {
            if(logsumexp_tile_traits.shape[j] != src_tile_traits.shape[j+1]
                    or labels.grid.shape[j] != src.grid.shape[j+1])
            {
                throw std::runtime_error("labels.shape[i] != src.shape[i+1]");
            }
        }
""")]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tensor/total_sum_accum.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits v({}, {}), l({4}, {2}), s({3, 3}, {3, 2});
    std::vector<int> one(1, 0), two(2, 0);
    tensor::Tensor<fp64_t> lse(l, two, tag), src(s, two, tag), val(v, one, tag);
    tensor::Tensor<Index> lab(l, two, tag);
    bool thrown = false;
    try { tensor::total_sum_accum_async<fp64_t>(1.0, lse, src, lab, val); }
    catch(const std::runtime_error &) { thrown = true; }
    CHECK(thrown);
    CHECK(tasks.size() == 0);
    std::_Exit(0);
}
'''
