PROPERTY = "C40"
NEEDS = "the very first step of Adam with a non-zero weight decay"
BREAKS = "the second moment of the first step is computed from the gradient without the weight decay term, the first moment with it"
EDITS = [("src/kernel/adam_step/cpu.cc", """            s_val = std::sqrt(1-beta_2) * std::fabs(grad_val);
""", """            s_val = std::sqrt(1-beta_2) * std::fabs(grad[i]);
""")]
DEMO_CC = r'''
#include "nntile/kernel/adam_step/cpu.hh"
#include <cstdio>
#include <cmath>
using namespace nntile;
int main()
{
    double g[2] = {0.5, -1}, m[2] = {}, v[2] = {}, p[2] = {2, 3};
    double G[2] = {0.5, -1}, M[2] = {}, V[2] = {}, P[2] = {2, 3};
    const double b1 = 0.9, b2 = 0.99, eps = 1e-8, lr = 0.1, wd = 0.3;
    for(int t = 1; t < 4; ++t)
    {
        kernel::adam_step::cpu<fp64_t>(t, 2, b1, b2, eps, lr, wd, g, m, v, p);
        for(int i = 0; i < 2; ++i)
        {
            double gr = G[i] + wd*P[i];
            M[i] = b1*M[i] + (1-b1)*gr;
            V[i] = b2*V[i] + (1-b2)*gr*gr;
            P[i] -= lr*M[i]/(1-std::pow(b1, t)) / (std::sqrt(V[i]/(1-std::pow(b2, t)))+eps);
            if(!(std::fabs(p[i]-P[i]) <= 1e-9)) { std::printf("step %d: %f != %f\n", t, p[i], P[i]); return 1; }
        }
    }
    return 0;
}
'''
