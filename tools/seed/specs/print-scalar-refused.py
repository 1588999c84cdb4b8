PROPERTY = "C05"
NEEDS = "the runtime refuses to acquire a scalar that is to be printed asynchronously"
BREAKS = "negative codes, by which the runtime reports errors, are not recognised"
EDITS = [("include/nntile/tensor/tensor.hh", """        if(ret != 0)
        {
            throw std::runtime_error("Error in starpu_data_acquire_cb()");""", """        if(ret > 0)
        {
            throw std::runtime_error("Error in starpu_data_acquire_cb()");""")]
DEMO_CC = r'''
#include "cap.hh"
#undef starpu_data_acquire_cb
extern "C" __attribute__((visibility("default"))) int starpu_data_acquire_cb(
    starpu_data_handle_t, enum starpu_data_access_mode, void (*)(void *), void *)
{
    return -22;
}
int main()
{
    starpu::Config cfg(1, 0, 0);
    starpu::init();
    starpu_mpi_tag_t tag = 0;
    tensor::TensorTraits tr({}, {});
    tensor::Tensor<fp64_t> t(tr, {0}, tag);
    bool thrown = false;
    try { t.print_scalar_async(); }
    catch(const std::runtime_error &) { thrown = true; }
    CHECK(thrown);
    std::_Exit(0);
}
'''
