PROPERTY = "C51"
NEEDS = "a tile copy that covers the beginning of the destination tile but not its end, along every dimension"
BREAKS = "the destination tile is submitted as STARPU_W although a part of it has to be kept: whenever the runtime takes a fresh buffer for it, the rest of the tile is garbage"
EDITS = [("src/tile/copy_intersection.cc", "        if(copy_shape[i] != dst.shape[i])\n", "        if(dst_start[i] != 0)\n")]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tile/copy_intersection.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    tile::Tile<fp64_t> src({3, 2}), dst({4, 3});
    tile::Tile<Index> scratch({4});
    tile::copy_intersection_async<fp64_t>(src, {0, 0}, dst, {0, 0}, scratch);
    CHECK(tasks.size() == 1);
    auto h = static_cast<starpu_data_handle_t>(dst);
    int n = 0;
    for(size_t i = 0; i < tasks[0].handle.size(); ++i)
    {
        if(tasks[0].handle[i] == h)
        {
            CHECK((tasks[0].mode[i] & STARPU_RW) == STARPU_RW);
            ++n;
        }
    }
    CHECK(n == 1);
    std::_Exit(0);
}
'''
