PROPERTY = "C15"
NEEDS = "a product of matrices with 2^31 or more columns"
BREAKS = "the number of columns is truncated instead of being refused"
EDITS = [('src/starpu/gemm.cc.in', '    if(static_cast<CBLAS_INT>(n) != n)\n', '    if(static_cast<CBLAS_INT>(k) != k)\n')]
DEMO_CC = r'''
#include "cap.hh"
#include "nntile/starpu/gemm.hh"
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    double x[4] = {};
    starpu::VariableHandle a(x, sizeof(x), STARPU_R), b(x+1, 8, STARPU_R), c(x+2, 8, STARPU_RW);
    TransOp n(TransOp::NoTrans);
    const Index big = (Index(1) << 32) + 1;
    for(int i = 0; i < 3; ++i)
    {
        bool refused = false;
        try
        {
            starpu::gemm::submit<fp64_t, fp64_t>(n, n, i == 0 ? big : 1, i == 1 ? big : 1, i == 2 ? big : 1, 1, 1.0, a, b, 1.0, c, 0);
        }
        catch(const std::runtime_error &e)
        {
            refused = true;
        }
        CHECK(refused);
    }
    starpu::gemm::submit<fp64_t, fp64_t>(n, n, 1, 1, 1, 1, 1.0, a, b, 1.0, c, 0);
    CHECK(tasks.size() == 1);
    std::_Exit(0);
}
'''
