PROPERTY = "C18"
NEEDS = "a user's buffer registered for writing and last modified by another memory node"
BREAKS = "handles registered for writing are unregistered without bringing the result back into the user's buffer"
EDITS = [("include/nntile/starpu/config.hh", """            case STARPU_R:
                //std::cerr << "[nntile] register READ\\n";
""", """            case STARPU_R:
            case STARPU_W:
                //std::cerr << "[nntile] register READ\\n";
"""), ("include/nntile/starpu/config.hh", """            case STARPU_RW:
            case STARPU_W:
                //""", """            case STARPU_RW:
                //""")]
DEMO_CC = r'''
#include "cap.hh"
static int coherent = 0, incoherent = 0;
#undef starpu_data_unregister
#undef starpu_data_unregister_no_coherency
extern "C" __attribute__((visibility("default"))) void starpu_data_unregister(starpu_data_handle_t) { ++coherent; }
extern "C" __attribute__((visibility("default"))) void starpu_data_unregister_no_coherency(starpu_data_handle_t) { ++incoherent; }
int main()
{
    starpu::Config cfg(1, 0, 0);
    static double x[4];
    {
        starpu::VariableHandle h(x, sizeof(x), STARPU_W);
    }
    CHECK(coherent == 1);
    CHECK(incoherent == 0);
    std::_Exit(0);
}
'''
