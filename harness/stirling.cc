// C18 rows of log Stirling numbers of the first kind
#include "vrng.h"
#include <distributions/special.hpp>
#include <distributions/vector.hpp>
using namespace distributions;
#ifndef CUT
#define CUT 32
#endif
// log of the exact unsigned Stirling numbers, by the recurrence S(n+1, k) = n S(n, k) + S(n, k-1)
static void exact(size_t n, std::vector<double> & s) {
    s.assign(n + 1, 0); s[0] = 1;
    for (size_t m = 0; m < n; ++m) { for (size_t k = m + 1; k > 0; --k) s[k] = m * s[k] + s[k - 1]; s[0] = m * s[0]; }
}
template<class V> static void row_is_exact(size_t n, const V & r) {
    v_eqi(r.size(), n + 1, "a row has n + 1 entries");
    if (r.size() != n + 1) v_stop();
    std::vector<double> s; exact(n, s);
    if (n > 0) v_neginf(r[0], "the first entry is impossible");
    v_closed(r[n], 0, "the last entry is zero");
    for (size_t k = 1; k <= n; ++k) v_closed(r[k], std::log(s[k]), "each entry is the logarithm of the exact number");
}
template<class V> static void row_is_close(size_t n, const V & r) {
    const double tol = std::max(0.7, 0.3 + 0.085 * ((double)n - 32)), slope = 0.17 + 0.0013 * ((double)n - 32);
    v_eqi(r.size(), n + 1, "a row has n + 1 entries");
    if (r.size() != n + 1) v_stop();
    std::vector<double> s; exact(n, s);
    v_neginf(r[0], "the first entry is impossible");
    v_closed(r[n], 0, "the last entry is zero");
    double before = 0;
    for (size_t k = 1; k < n; ++k) {
        double d = (double)r[k] - std::log(s[k]);
        v_le(d, tol, "approximate rows stay close to exact ones");
        v_le(-tol, d, "approximate rows stay close to exact ones");
        if (k > 1) { v_le(d - before, slope, "the slopes of approximate rows stay close to exact ones");
                     v_le(-slope, d - before, "the slopes of approximate rows stay close to exact ones"); }
        before = d;
    }
}
static void request(size_t n, int how) {
    if (how) { std::vector<float, aligned_allocator<float>> r; get_log_stirling1_row(n, r); }
    else log_stirling1_row(n);
}
#ifndef NAPPROX
#define NAPPROX 5
#endif
#ifndef BEFORE
#define BEFORE 1
#endif
ENTRY(row) {            // every row, after any earlier requests
    static const int e[] = {0, 1, 2, 7, 31, 32, 40};
    for (int i = 0; i < BEFORE; ++i) { int b = nd_choice("before", 8); if (b < 7) request(e[b], b & 1); }
    size_t n = nd_choice("n", CUT);
    std::vector<float> r(nd_choice("size", 2) * 40, 1.f);      // whatever the result held
    get_log_stirling1_row(n, r);
    row_is_exact(n, r);
}
ENTRY(row_aligned) { size_t n = nd_choice("n", CUT); VectorFloat r; get_log_stirling1_row(n, r); row_is_exact(n, r); }
ENTRY(again) {          // a row handed out earlier does not change later ones
    size_t n = nd_choice("n", CUT), m = nd_choice("m", 3) * 15 + 1;
    std::vector<float> r = log_stirling1_row(n); for (auto & x : r) x = 5;
    request(m, 0);
    row_is_exact(n, log_stirling1_row(n));
}
ENTRY(approximate) {
    static const int e[] = {32, 33, 34, 40, 48, 64, 96, 128};
    size_t n = e[nd_choice("n", NAPPROX)]; if (nd_choice("aligned", 2)) { VectorFloat r; get_log_stirling1_row(n, r); row_is_close(n, r); }
    else row_is_close(n, log_stirling1_row(n));
}
ENTRY(after) {          // an approximate row after a smaller, the next or a larger one
    size_t n = nd_choice("n", 2) ? 40 : 32;
    static const int e[] = {31, 32, 33, 41, 64};
    const int b = nd_choice("before", 5); request(e[b], nd_choice("aligned", 2));
    row_is_close(n, log_stirling1_row(n));
}
