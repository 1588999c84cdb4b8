PROPERTY = "C51"
NEEDS = "a partial copy into a destination tile whose first elements are overwritten and whose last elements are not, along every dimension"
BREAKS = "the copy task takes the destination write-only although the caller asked for read-write access: the runtime may hand over a buffer without the old contents, so the elements behind the copied box are lost"
EDITS = [("src/starpu/subcopy.cc", "    constexpr fp64_t zero_flops = 0;\n    // Submit task\n", """    constexpr fp64_t zero_flops = 0;
    // Old contents are needed only if something precedes the copied box
    bool first = true;
    for(Index i = 0; i < ndim; ++i)
    {
        first = first and dst_start[i] == 0;
    }
    if(first)
    {
        mode = STARPU_W;
    }
    // Submit task
""")]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/tile/copy_intersection.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    // elements 0 to 2 of the destination are copied, 3 and 4 are kept
    tile::Tile<fp64_t> src({4}), dst({5});
    tile::Tile<Index> scratch({2});
    tile::copy_intersection_async<fp64_t>(src, {0}, dst, {1}, scratch);
    CHECK(tasks.size() == 1);
    auto h = static_cast<starpu_data_handle_t>(dst);
    int n = 0;
    for(size_t i = 0; i < tasks[0].handle.size(); ++i)
    {
        if(tasks[0].handle[i] == h)
        {
            CHECK((tasks[0].mode[i] & STARPU_RW) == STARPU_RW);
            ++n;
        }
    }
    CHECK(n == 1);
    std::_Exit(0);
}
'''
