PROPERTY = "C19"
NEEDS = "a tile looked up with the linear offset one past the last tile"
BREAKS = "the linear offset equal to the number of tiles is accepted"
EDITS = [("include/nntile/tensor/tensor.hh", """    tile::Tile<T> get_tile(Index linear_offset) const
    {
        if(linear_offset < 0 or linear_offset >= grid.nelems)
""", """    tile::Tile<T> get_tile(Index linear_offset) const
    {
        if(linear_offset < 0 or linear_offset > grid.nelems)
""")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits tr({4}, {2});
    std::vector<int> d(2, 0);
    tensor::Tensor<fp64_t> t(tr, d, tag);
    // Room behind the tiles, so that the demonstration stays in its memory
    t.tile_traits.push_back(t.tile_traits[0]);
    t.tile_handles.push_back(t.tile_handles[0]);
    for(Index i: {-1, 2})
    {
        bool thrown = false;
        try { t.get_tile(i); }
        catch(const std::runtime_error &) { thrown = true; }
        CHECK(thrown);
    }
    t.get_tile(1);
    std::_Exit(0);
}
'''
