// C11, C13, C23: the generator functions behind the hp models (distributions/rng_cc.hpp)
#include "vrng.h"
#include <vector>
#include <../distributions/rng_cc.hpp>
using namespace std_wrapper;
#ifndef DIM
#define DIM 4
#endif
#define PARAM "drawn with the parameters given"
static VDraw & only(int kind) {
    v_check(v_ndraws == 1 && v_draws[0].kind == kind, "one draw from the named distribution");
    if (v_ndraws != 1 || v_draws[0].kind != kind) v_stop();
    return v_draws[0];
}
ENTRY(hp_normal) {
    rng_t rng; double mu = nd_float("mu", -100, 100), s = nd_float("sigmasq", 1.f/1024, 1000);
    double r = std_random_normal(rng, mu, s);
    v_closed(r, mu + std::sqrt(s) * only(std::V_NORMAL).z, "mean and variance of the normal draw");
}
ENTRY(hp_chisq) {
    rng_t rng; double nu = nd_float("nu", 1.f/1024, 1000);
    double r = std_random_chisq(rng, nu);
    if (v_ndraws == 1 && v_draws[0].kind == std::V_GAMMA) { v_closed(v_draws[0].p1, nu / 2, PARAM); v_closed(r / v_draws[0].value * v_draws[0].p2, 2, PARAM); return; }
    v_closed(only(std::V_CHI2).p1, nu, PARAM);
    v_closed(r, v_draws[0].value, "returns the draw");
}
ENTRY(hp_gamma) {
    rng_t rng; double a = nd_float("alpha", 1.f/1024, 1000), b = nd_float("beta", 1.f/1024, 1000);
    double r = std_random_gamma(rng, a, b);
    VDraw & d = only(std::V_GAMMA);
    v_closed(d.p1, a, PARAM);
    v_closed(r * d.p2, d.value * b, "scale of the gamma draw");
}
ENTRY(hp_poisson) {
    rng_t rng; double mu = nd_float("mu", 1.f/1024, 1000);
    int r = std_random_poisson(rng, mu);
    v_closed(only(std::V_POISSON).p1, mu, PARAM);
    v_closed(r, v_draws[0].value, "returns the draw");
}
ENTRY(hp_categorical) {
    rng_t rng;
    size_t n = 1 + nd_choice("n", DIM), last = nd_choice("last", n);
    double p[DIM], rest = 1;
    for (size_t i = 0; i < n; ++i) if (i != last) { p[i] = nd_float("p", 0, 1); rest -= p[i]; }
    v_assume(rest >= 0);
    p[last] = rest;
    int a = std_random_categorical(rng, n, p);
    double u = only(std::V_UNIF).value, below = 0;
    v_check(v_draws[0].p1 == 0 && v_draws[0].p2 == 1, "draws from the unit interval");
    v_check(a >= 0 && a < (int)n, "choice in range");
    if (a < 0 || a >= (int)n) v_stop();
    for (int i = 0; i < a; ++i) below += p[i];
    v_le(below, u, "inverse of the cumulative distribution");
    v_le(u, below + p[a], "inverse of the cumulative distribution");
    v_check(p[a] > 0, "a choice of zero probability is never returned");
}
static void dirichlet(bool alias, bool under) {
    v_gamma_zero = under;        // gamma variates may underflow to zero
    rng_t rng;
    size_t n = 1 + nd_choice("n", DIM);
    std::vector<double> alphas(n), out(n, -7);
    for (auto & x : alphas) x = nd_float("alpha", 1.f/1024, 1000);
    const std::vector<double> a(alphas);
    double * to = alias ? alphas.data() : out.data();
    std_random_dirichlet(rng, n, alphas.data(), to);
    double sum = 0, total = 0;
    size_t g = 0;
    for (size_t i = 0; i < n; ++i) {
        v_check(to[i] >= 0 && to[i] <= 1, "entries lie in [0, 1]");
        sum += to[i];
        if (i < (size_t)v_ndraws && v_draws[i].kind == std::V_GAMMA) { ++g; v_closed(v_draws[i].p1, a[i], PARAM); v_closed(v_draws[i].p2, v_draws[0].p2, PARAM); total += v_draws[i].value; }
    }
    v_closed(sum, 1, "entries sum to one");
    v_eqi(g, n, "one gamma draw per entry");
    if (g == n && total > 0) for (size_t i = 0; i < n; ++i) v_closed(to[i] * total, v_draws[i].value, "entries are the gamma draws over their total");
    if (!alias) for (size_t i = 0; i < n; ++i) v_close(alphas[i], a[i], "the parameters are left alone");
}
ENTRY(hp_dirichlet) { dirichlet(false, false); }
ENTRY(hp_dirichlet_alias) { dirichlet(true, false); }
ENTRY(hp_dirichlet_underflow) { dirichlet(false, true); }
ENTRY(hp_dirichlet_underflow_alias) { dirichlet(true, true); }
ENTRY(hp_seed) {
    rng_t rng; uint32_t s = nd_u32("seed", 0, 0xFFFFFFFFu);
    if (nd_choice("before", 2)) rng();
    std_rng_seed(rng, s);
    v_check(rng.seed_ == s && rng.draws_ == 0, "the generator starts over from the seed");
}
