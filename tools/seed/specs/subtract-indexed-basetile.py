PROPERTY = "C08"
NEEDS = "labels with at least two dimensions, tiled differently from the outputs along the last one"
BREAKS = "the tile shapes of labels and outputs are compared for the first label dimension only"
EDITS = [("src/tensor/subtract_indexed_outputs.cc", "        if(labels.basetile_shape[i] != dst.basetile_shape[i+1])\n", "        if(labels.basetile_shape[0] != dst.basetile_shape[1])\n")]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tensor/subtract_indexed_outputs.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits l({4, 4}, {2, 3}), s({3, 4, 4}, {3, 2, 2});
    std::vector<int> four(4, 0);
    tensor::Tensor<fp64_t> dst(s, four, tag);
    tensor::Tensor<Index> lab(l, four, tag);
    bool thrown = false;
    try { tensor::subtract_indexed_outputs_async<fp64_t>(1.0, lab, dst); }
    catch(const std::runtime_error &) { thrown = true; }
    CHECK(thrown);
    std::_Exit(0);
}
'''
