PROPERTY = "C13"
NEEDS = "embedding tasks that differ in the part of the vocabulary tile they copy only"
BREAKS = "the footprint of embedding tasks hashes k_start twice and leaves k_size out"
EDITS = [("src/starpu/embedding.cc", "    hash = starpu_hash_crc32c_be_n(&args->k_size, sizeof(args->k_size), hash);\n", "    hash = starpu_hash_crc32c_be_n(&args->k_start, sizeof(args->k_size), hash);\n")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::embedding::init();
    starpu::Handle h;
    starpu::embedding::submit<fp64_t>(2, 3, 8, 0, 4, h, h, h);
    starpu::embedding::submit<fp64_t>(2, 3, 8, 0, 8, h, h, h);
    uint32_t f[2];
    for(int i = 0; i < 2; ++i)
    {
        starpu_task t;
        std::memset(&t, 0, sizeof(t));
        t.cl_arg = tasks[i].args;
        f[i] = starpu::embedding::codelet_fp64.footprint(&t);
    }
    CHECK(f[0] != f[1]);
    std::_Exit(0);
}
'''
