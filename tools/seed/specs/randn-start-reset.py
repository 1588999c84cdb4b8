PROPERTY = "C52"
NEEDS = "a tensor of rank at least 2 with several tiles along its first dimension, filled as a part of an underlying tensor that does not begin at zero"
BREAKS = "tiles of all but the first column of tiles start at zero along the first dimension: their elements are those of other positions of the underlying tensor"
EDITS = [("src/tensor/randn.cc", "            tile_start[j] = start[j];\n", "            tile_start[j] = 0;\n")]
DEMO_CC = r'''
#include "nntile/starpu.hh"
#include "nntile/tensor/randn.hh"
#include "nntile/tile/tile.hh"
#include "nntile/kernel/randn/cpu.hh"
#include <cstdio>
#include <cstdlib>
#include <vector>
using namespace nntile;
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu::restrict_where(STARPU_CPU);
    starpu_mpi_tag_t tag = 0;
    const Index und[2] = {8, 4}, zero[2] = {0, 0}, st[2] = {1, 8};
    std::vector<double> ref(32);
    Index tmp[4];
    kernel::randn::cpu<fp64_t>(2, 32, 5, 0.0, 1.0, zero, und, und, ref.data(), st, tmp);
    std::vector<int> four(4, 0);
    tensor::Tensor<fp64_t> dst(tensor::TensorTraits({4, 2}, {2, 1}), four, tag);
    tensor::randn<fp64_t>(dst, {3, 1}, {8, 4}, 5, 0.0, 1.0);
    int rc = 0;
    for(Index i = 0; i < 4; ++i)
    {
        auto t = dst.get_tile(i);
        auto x = t.acquire(STARPU_R);
        for(Index j = 0; j < 2; ++j)
        {
            if(x[j] != ref[3+2*(i%2)+j + 8*(1+i/2)])
            {
                std::printf("tile %d element %d\n", int(i), int(j));
                rc = 1;
            }
        }
        x.release();
    }
    std::fflush(stdout);
    std::_Exit(rc);
}
'''
