// C19 vector kernels
#include "vrng.h"
#include <distributions/special.hpp>
#include <distributions/vector_math.hpp>
#include <distributions/vector.hpp>
using namespace distributions;
#ifndef VN
#define VN 20
#endif
#ifndef NEXT
#define NEXT 6
#endif
enum { PAD = 3 };
struct Buf {                    // n symbolic elements between canaries
    float a[PAD + 64 + PAD]; double was[PAD + 64 + PAD]; size_t n;
    Buf(const char * name, size_t n_, float lo, float hi) : n(n_) {
        for (size_t i = 0; i < PAD + n + PAD; ++i) { a[i] = nd_float(name, lo, hi); was[i] = a[i]; }
    }
    float * p() { return a + PAD; }
    double old(size_t i) const { return was[PAD + i]; }
    void canaries() { for (size_t i = 0; i < PAD; ++i) {
        v_closed(a[i], was[i], "nothing outside the range is touched");
        v_closed(a[PAD + n + i], was[PAD + n + i], "nothing outside the range is touched"); } }
    void same() { for (size_t i = 0; i < PAD + n + PAD; ++i) v_closed(a[i], was[i], "inputs are left alone"); }
};
static size_t size(int m) { return nd_choice("size", m + 1); }
#define OUT(i, ...) { for (size_t i = 0; i < n; ++i) v_closed(io.p()[i], __VA_ARGS__, "each element is its scalar definition"); io.canaries(); }
ENTRY(zero) { size_t n = size(VN); Buf io("x", n, -9, 9); vector_zero(n, io.p()); OUT(i, 0.0) }
ENTRY(shift) { size_t n = size(VN); Buf io("x", n, -9, 9); float s = nd_float("s", -9, 9); vector_shift(n, io.p(), s); OUT(i, io.old(i) + s) }
ENTRY(scale) { size_t n = size(VN); Buf io("x", n, -9, 9); float s = nd_float("s", -9, 9); vector_scale(n, io.p(), s); OUT(i, io.old(i) * (double)s) }
ENTRY(negate) { size_t n = size(VN); Buf io("x", n, -9, 9); vector_negate(n, io.p()); OUT(i, -io.old(i)) }
ENTRY(add) { size_t n = size(VN); Buf io("x", n, -9, 9), a("a", n, -9, 9); vector_add(n, io.p(), a.p()); OUT(i, io.old(i) + a.old(i)) a.same(); }
ENTRY(negate_and_add) { size_t n = size(VN); Buf io("x", n, -9, 9), a("a", n, -9, 9); vector_negate_and_add(n, io.p(), a.p()); OUT(i, a.old(i) - io.old(i)) a.same(); }
ENTRY(add_add) { size_t n = size(VN); Buf io("x", n, -9, 9), a("a", n, -9, 9), b("b", n, -9, 9);
    vector_add_add(n, io.p(), a.p(), b.p()); OUT(i, io.old(i) + a.old(i) + b.old(i)) a.same(); b.same(); }
ENTRY(add_subtract) { size_t n = size(VN); Buf io("x", n, -9, 9), a("a", n, -9, 9), b("b", n, -9, 9);
    vector_add_subtract(n, io.p(), a.p(), b.p()); OUT(i, io.old(i) + a.old(i) - b.old(i)) a.same(); b.same(); }
ENTRY(add_subtract_scalar) { size_t n = size(VN); Buf io("x", n, -9, 9), b("b", n, -9, 9); float s = nd_float("s", -9, 9);
    vector_add_subtract(n, io.p(), s, b.p()); OUT(i, io.old(i) + s - b.old(i)) b.same(); }
ENTRY(multiply_add) { size_t n = size(VN); Buf io("x", n, -9, 9), a("a", n, -9, 9), b("b", n, -9, 9);
    vector_multiply_add(n, io.p(), a.p(), b.p()); OUT(i, io.old(i) + a.old(i) * b.old(i)) a.same(); b.same(); }
// reductions
ENTRY(sum) { size_t n = size(VN); Buf a("a", n, -9, 9); double s = 0; for (size_t i = 0; i < n; ++i) s += a.old(i);
    v_closed(vector_sum(n, a.p()), s, "sum of all elements"); a.same(); }
ENTRY(dot) { size_t n = size(VN); Buf a("a", n, -9, 9), b("b", n, -9, 9); double s = 0; for (size_t i = 0; i < n; ++i) s += a.old(i) * b.old(i);
    v_closed(vector_dot(n, a.p(), b.p()), s, "dot product of all elements"); a.same(); b.same(); }
static void extremum(bool max) {
    size_t n = 1 + size(NEXT - 1); Buf a("a", n, -9, 9);
    float r = max ? vector_max(n, a.p()) : vector_min(n, a.p());
    bool hit = false;
    for (size_t i = 0; i < n; ++i) {
        if (max) v_le(a.p()[i], r, "no element is greater"); else v_le(r, a.p()[i], "no element is smaller");
    }
    for (size_t i = 0; i < n; ++i) if (r == a.p()[i]) hit = true;
    v_check(hit, "is one of the elements");
    a.same();
}
ENTRY(min) { extremum(false); }
ENTRY(max) { extremum(true); }
// every size and position, all other elements equal
static void extremum_at(bool max) {
    size_t n = 1 + size(VN - 1), j = nd_choice("where", n);
    float lo = nd_float("one", -9, 9), hi = nd_float("other", -9, 9);
    v_assume(max ? lo > hi : lo < hi);
    float a[64]; for (size_t i = 0; i < n; ++i) a[i] = hi; a[j] = lo; a[n] = max ? 100 : -100;
    v_closed(max ? vector_max(n, a) : vector_min(n, a), lo, "the extremum wherever it is");
}
ENTRY(min_at) { extremum_at(false); }
ENTRY(max_at) { extremum_at(true); }
// maps by a special function: separate and in-place versions
#define MAP(name, lo, hi, ref) \
static void name##_map(bool inplace) { size_t n = size(VN); \
    if (inplace) { Buf io("x", n, lo, hi); vector_##name(n, io.p()); \
        for (size_t i = 0; i < n; ++i) { double x = io.old(i); v_closed(io.p()[i], ref, "each element is its scalar definition"); } io.canaries(); } \
    else { Buf io("x", n, -9, 9), a("a", n, lo, hi); vector_##name(n, a.p(), io.p()); \
        for (size_t i = 0; i < n; ++i) { double x = a.old(i); v_closed(io.p()[i], ref, "each element is its scalar definition"); } io.canaries(); a.same(); } }
MAP(exp, -20, 20, std::exp(x))
MAP(log, 0.001f, 1000, std::log(x))
MAP(lgamma, 0.1f, 1000, std::lgamma(x))
MAP(lgamma_nu, 0.1f, 1000, std::lgamma(x / 2 + 0.5) - std::lgamma(x / 2))
ENTRY(exp) { exp_map(false); }
ENTRY(exp_inplace) { exp_map(true); }
ENTRY(log) { log_map(false); }
ENTRY(log_inplace) { log_map(true); }
ENTRY(lgamma) { lgamma_map(false); }
ENTRY(lgamma_inplace) { lgamma_map(true); }
ENTRY(lgamma_nu) { lgamma_nu_map(false); }
ENTRY(lgamma_nu_inplace) { lgamma_nu_map(true); }
