// C17 fast special functions within their error bounds
#include "vrng.h"
#include <distributions/special.hpp>
using namespace distributions;
enum { PARTS = 8 };
// bounds of the approximation error (exact real arithmetic; rounding comes on top)
static double nu_bound(int c) { return c < 2 ? 0.0155 : c < 6 ? 0.0102 : 0.0082; }
static void log_part(int k) { float x = nd_bits_any("x", -126, 127, k, PARTS); v_bound(fast_log(x), FN_LOG, x, 6.2e-5, 0, "fast_log within 6.2e-5"); }
ENTRY(log0) { log_part(0); }
ENTRY(log1) { log_part(1); }
ENTRY(log2) { log_part(2); }
ENTRY(log3) { log_part(3); }
ENTRY(log4) { log_part(4); }
ENTRY(log5) { log_part(5); }
ENTRY(log6) { log_part(6); }
ENTRY(log7) { log_part(7); }
ENTRY(lgamma) { int c = (int) nd_choice("c", 254) - 126; float x = nd_bits("x", c);
    v_bound(fast_lgamma(x), FN_LGAMMA, x, 4e-5, 2.2e-6, "fast_lgamma within 4e-5 + 2.2e-6 lgamma"); }
ENTRY(lgamma_nu) { int c = (int) nd_choice("c", 254) - 126; float x = nd_bits("x", c);
    v_bound(fast_lgamma_nu(x), FN_LGAMMA_NU, x, nu_bound(c), 0, "fast_lgamma_nu within its bound"); }
ENTRY(log_factorial_small) { uint32_t n = nd_choice("n", 300);
    v_bound(fast_log_factorial(n), FN_LGAMMA, n + 1.0, 4e-6, 2.2e-6, "fast_log_factorial within 4e-6 + 2.2e-6 log n!"); }
ENTRY(log_factorial) { uint32_t n = nd_u32("n", 0, 0xFFFFFFFFu);
    v_bound(fast_log_factorial(n), FN_LGAMMA, n + 1.0, 4e-5, 2.2e-6, "fast_log_factorial within 4e-5 + 2.2e-6 log n!"); }
// functions composed of the above equal their formulas (log, lgamma by contract)
static double lg(double x) { return std::lgamma(x); }
ENTRY(log_sum_exp) { float x = nd_float("x", -20, 20), y = nd_float("y", -20, 20);
    v_closed(log_sum_exp(x, y), std::log(std::exp((double)x) + std::exp((double)y)), "log_sum_exp"); }
ENTRY(fast_log_sum_exp) { float x = nd_float("x", -20, 20), y = nd_float("y", -20, 20);
    v_closed(fast_log_sum_exp(x, y), std::log(std::exp((double)x) + std::exp((double)y)), "fast_log_sum_exp"); }
ENTRY(log_beta) { float a = nd_float("a", 0.01f, 1000), b = nd_float("b", 0.01f, 1000);
    v_closed(log_beta(a, b), lg(a) + lg(b) - lg((double)a + b), "log_beta"); }
ENTRY(fast_log_beta) { float a = nd_float("a", 0.01f, 1000), b = nd_float("b", 0.01f, 1000);
    v_closed(fast_log_beta(a, b), lg(a) + lg(b) - lg((double)a + b), "fast_log_beta"); }
ENTRY(log_beta_domain) { float a = nd_float("a", -10, 0), b = nd_float("b", -10, 10); bool s = nd_choice("swap", 2);
    if (s) std::swap(a, b);
    float r = nd_choice("fast", 2) ? fast_log_beta(a, b) : log_beta(a, b);
    v_neginf(r, "log_beta outside its domain is minus infinity"); }
ENTRY(log_binom) { float n = nd_float("n", 1, 1000), k = nd_float("k", 0, 1000); v_assume(k <= n);
    v_closed(log_binom(n, k), lg((double)n + 1) - lg((double)k + 1) - lg((double)n - k + 1), "log_binom"); }
ENTRY(fast_log_binom) { float n = nd_float("n", 1, 1000), k = nd_float("k", 0, 1000); v_assume(k <= n);
    v_closed(fast_log_binom(n, k), lg((double)n + 1) - lg((double)k + 1) - lg((double)n - k + 1), "fast_log_binom"); }
ENTRY(lmultigamma) { unsigned d = 1 + nd_choice("d", 6); float a = nd_float("a", 2.6f, 1000); double s = d * (d - 1) / 4.0 * std::log(M_PI);
    for (unsigned j = 1; j <= d; ++j) s += lg((double)a + (1.0 - j) / 2);
    v_closed(lmultigamma(d, a), s, "lmultigamma"); }
ENTRY(sqr) { float a = nd_float("a", -1000, 1000); v_closed(sqr(a), (double)a * a, "sqr"); }
