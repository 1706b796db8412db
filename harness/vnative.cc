// Native replay: nd_* read the solver's values, v_* compare with a tolerance.
// Compiled without -ffast-math.
#include <cmath>
#include <pthread.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
static std::vector<std::string> vals;
static size_t pos = 0;
static int fails = 0;
static double tol = 5e-3;
static const char * next(const char * name) {
    if (pos < vals.size()) return vals[pos++].c_str();
    if (getenv("V_DEFAULT")) return "0.5";      // inputs after the failing point: any will do
    printf("EXHAUSTED %s\n", name); fflush(stdout); _Exit(4);
}
typedef void (*fn_t)();
struct Ent { const char * n; fn_t f; };
extern Ent v_entries[];
extern "C" {
float nd_float(const char * n, float lo, float hi) { double x = strtod(next(n), 0); float f = x; if (f < lo) f = lo; if (f > hi) f = hi; return f; }
double nd_double(const char * n, double lo, double hi) { double x = strtod(next(n), 0); if (x < lo) x = lo; if (x > hi) x = hi; return x; }
float nd_pos(const char * n) { float f = strtod(next(n), 0); return f; }
float nd_real(const char * n) { float f = strtod(next(n), 0); return f; }
int nd_int(const char * n, int, int) { return strtol(next(n), 0, 10); }
uint32_t nd_u32(const char * n, uint32_t, uint32_t) { return strtoul(next(n), 0, 10); }
int nd_choice(const char * n, int) { return strtol(next(n), 0, 10); }
void v_assume(bool b) { if (!b) { printf("ASSUME\n"); fflush(stdout); _Exit(fails ? 1 : 3); } }
static void fail(const char * l, double a, double b) { ++fails; printf("FAIL %s: %.9g vs %.9g\n", l, a, b); fflush(stdout); }
void v_check(bool b, const char * l) { if (!b) fail(l, 0, 1); }
static void close_(double a, double b, const char * l) {
    if (a == b) return;
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) { fail(l, a, b); return; }
    if (std::fabs(a - b) > tol * (1 + std::fabs(a) + std::fabs(b))) fail(l, a, b);
}
void v_close(float a, float b, const char * l) { close_(a, b, l); }
void v_closed(double a, double b, const char * l) { close_(a, b, l); }
void v_eqi(long a, long b, const char * l) { if (a != b) fail(l, a, b); }
void v_neginf(double x, const char * l) { if (!(std::isinf(x) && x < 0)) fail(l, x, -INFINITY); }
void v_le(float a, float b, const char * l) { if (!(a <= b + tol * (1 + std::fabs(a) + std::fabs(b)))) fail(l, a, b); }
void v_lt(float a, float b, const char * l) { if (!(a < b + tol * (1 + std::fabs(a) + std::fabs(b)))) fail(l, a, b); }
float nd_bits(const char * n, int c) { long m = strtol(next(n), 0, 10); return ldexpf(1 + m / 8388608.f, c); }
float nd_bits_any(const char * n, int, int, int, int) { int c = strtol(next(n), 0, 10); long m = strtol(next(n), 0, 10); return ldexpf(1 + m / 8388608.f, c); }
void v_bound(double got, int fn, double x, double ab, double rel, const char * l) {
    double r = fn == 0 ? std::log(x) : fn == 1 ? std::lgamma(x) : fn == 3 ? std::exp(x) : std::lgamma(x / 2 + 0.5) - std::lgamma(x / 2);
    if (std::isnan(got) || std::isinf(got) || std::fabs(got - r) > ab + rel * std::fabs(r) + 1e-6 * (1 + std::fabs(r))) fail(l, got, r);
}
void v_expect_error(int) {}
void v_reach(const char *) {}
void v_stop() { printf(fails ? "DONE fails\n" : "DONE ok\n"); fflush(stdout); _Exit(fails ? 1 : 0); }
int v_symbolic() { return 0; }
// (this file is compiled without ThreadSanitizer, so waiting for the first thread orders nothing for it)
static void (*thread_fn)(void *, int);
static volatile int thread_turn;
struct ThreadArg { void * f; int i; };
static void * thread_main(void * p) {
    ThreadArg * a = (ThreadArg *) p;
    while (thread_turn != a->i) sched_yield();
    try { thread_fn(a->f, a->i); }
    catch (std::exception & x) { printf("FAIL error raised: %s\n", x.what()); fflush(stdout); _Exit(1); }
    ++thread_turn;
    return 0;
}
void v_run_threads(void (*f)(void *, int), void * p) {
    pthread_t t[2]; static ThreadArg a[2];
    thread_fn = f; thread_turn = 0;
    for (int i = 0; i < 2; ++i) { a[i].f = p; a[i].i = i; pthread_create(&t[i], 0, thread_main, &a[i]); }
    for (int i = 0; i < 2; ++i) pthread_join(t[i], 0);
}
static std::string num(int i) { return i < 0 ? std::string() : std::to_string(i); }
void v_export_r(const char * p, const char * n, int i, double x) { printf("EXPORT %s%s%s r %.17g\n", p, n, num(i).c_str(), x); fflush(stdout); }
void v_export_i(const char * p, const char * n, int i, long x) { printf("EXPORT %s%s%s i %ld\n", p, n, num(i).c_str(), x); fflush(stdout); }
}
int main(int argc, char ** argv) {
    if (argc < 3) return 2;
    if (getenv("V_TOL")) tol = atof(getenv("V_TOL"));
    FILE * f = fopen(argv[2], "r");
    char buf[512];
    while (f && fgets(buf, sizeof buf, f)) {
        if (buf[0] == '#') continue;
        char * s = strrchr(buf, ' ');
        vals.push_back(s ? s + 1 : buf);
    }
    for (Ent * e = v_entries; e->n; ++e)
        if (e->f && !strcmp(e->n, argv[1])) {
            try { e->f(); }
            catch (std::exception & x) { printf("FAIL error raised: %s\n", x.what()); fflush(stdout); _Exit(1); }
            v_stop();
        }
    printf("no entry\n");
    return 2;
}
