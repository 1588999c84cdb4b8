// Records what the library hands to the runtime instead of running it.
#pragma once
#include "nntile/starpu.hh"
#include "nntile/tile/tile.hh"
#include "nntile/tensor/tensor.hh"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <vector>
using namespace nntile;
struct Task
{
    starpu_codelet *cl;
    std::vector<int> mode;
    std::vector<starpu_data_handle_t> handle;
    void *args;
    size_t size;
};
static std::vector<Task> tasks;
static int insert_result = 0;
#undef starpu_task_insert
extern "C" __attribute__((visibility("default")))
int starpu_task_insert(starpu_codelet *cl, ...)
{
    Task t{cl, {}, {}, nullptr, 0};
    va_list ap;
    va_start(ap, cl);
    for(int a; (a = va_arg(ap, int)) != 0;)
    {
        unsigned c = a & ~(STARPU_COMMUTE);
        if((a & 0x7fff0000) == 0 && (a & (STARPU_RW | STARPU_SCRATCH | STARPU_REDUX)))
        {
            t.mode.push_back(a);
            t.handle.push_back(va_arg(ap, starpu_data_handle_t));
        }
        else if(a == STARPU_CL_ARGS || a == STARPU_CL_ARGS_NFREE)
        {
            t.args = va_arg(ap, void *);
            t.size = va_arg(ap, size_t);
        }
        else if(a == STARPU_FLOPS) va_arg(ap, double);
        else if(a == STARPU_VALUE) { va_arg(ap, void *); va_arg(ap, size_t); }
        else if(a == STARPU_TASK_FILE || a == STARPU_NAME) va_arg(ap, char *);
        else va_arg(ap, int);
    }
    va_end(ap);
    if(insert_result == 0) tasks.push_back(t);
    return insert_result;
}
// Run the first CPU implementation of a recorded task on plain buffers
static inline void run(const Task &t, std::vector<void *> bufs)
{
    std::vector<starpu_variable_interface> v(bufs.size());
    std::vector<void *> p;
    for(size_t i = 0; i < bufs.size(); ++i)
    {
        v[i] = starpu_variable_interface();
        v[i].id = STARPU_VARIABLE_INTERFACE_ID;
        v[i].ptr = (uintptr_t)bufs[i];
        p.push_back(&v[i]);
    }
    t.cl->cpu_funcs[0](p.data(), t.args);
}
#define CHECK(x) do { if(!(x)) { std::printf("FAILED: %s (line %d)\n", #x, __LINE__); std::_Exit(1); } } while(0)
