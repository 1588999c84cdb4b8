PROPERTY = "C11"
NEEDS = "execution restricted to one kind of worker and the restriction lifted again"
BREAKS = "lifting the restriction of workers leaves logsumexp restricted"
EDITS = [("include/nntile/starpu.hh", "    logsumexp::restore_where();\n", "    maxsumexp::restore_where();\n")]
DEMO_CC = r'''
#include "cap.hh"
int main()
{
    starpu::init();
    auto before = starpu::logsumexp::codelet_fp64.starpu_codelet::where;
    // a restriction as set by another part of the program
    starpu::logsumexp::codelet_fp64.starpu_codelet::where = STARPU_NOWHERE;
    starpu::restore_where();
    CHECK(starpu::logsumexp::codelet_fp64.starpu_codelet::where == before);
    std::_Exit(0);
}
'''
