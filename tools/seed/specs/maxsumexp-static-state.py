PROPERTY = "C16"
NEEDS = "two logsumexp tasks running at the same time on different workers"
BREAKS = "the kernel keeps an intermediate value in a static variable shared by concurrently running tasks"
EDITS = [("src/kernel/logsumexp/cpu.cc", """    for(Index i = 0; i < nelems; ++i) 
    {
        logsumexp[i] = maxsumexp[2*i] + std::log(maxsumexp[2*i+1]);
    }
""", """    static T max;
    for(Index i = 0; i < nelems; ++i) 
    {
        max = maxsumexp[2*i];
        logsumexp[i] = max + std::log(maxsumexp[2*i+1]);
        max += logsumexp[i] - max;
    }
""")]
DEMO_CC = r'''
#include "cap.hh"
#include <dlfcn.h>
#include <link.h>
#include <thread>
#include <fstream>
#include <string>
#include <sstream>
// The writable data of the library must not change while a task runs
static std::vector<std::pair<char *, size_t>> regions()
{
    std::vector<std::pair<char *, size_t>> r;
    std::ifstream f("/proc/self/maps");
    std::string l;
    bool in = false;
    while(std::getline(f, l))
    {
        bool lib = l.find("libnntile") != std::string::npos;
        unsigned long a, b; char p[8];
        std::sscanf(l.c_str(), "%lx-%lx %7s", &a, &b, p);
        bool anon = l.find('/') == std::string::npos && l.find('[') == std::string::npos;
        if(p[1] == 'w' && (lib || (in && anon))) r.push_back({(char *)a, b-a});
        if(lib) in = true; else if(!anon) in = false;
    }
    return r;
}
int main()
{
    starpu::logsumexp::init();
    starpu::Handle h;
    starpu::logsumexp::submit<fp64_t>(2, h, h);
    CHECK(tasks.size() == 1);
    double src[4] = {1, 2, 3, 4}, dst[2];
    run(tasks[0], {src, dst});   // binds lazily resolved symbols
    auto r = regions();
    CHECK(r.size() > 0);
    std::vector<std::string> before;
    for(auto &x: r) before.push_back(std::string(x.first, x.second));
    src[0] = 10; src[2] = 20;
    run(tasks[0], {src, dst});
    for(size_t i = 0; i < r.size(); ++i)
        CHECK(std::memcmp(before[i].data(), r[i].first, r[i].second) == 0);
    std::_Exit(0);
}
'''
