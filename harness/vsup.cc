// Random number hooks shared by the symbolic run and the native replay: every draw returns an
// arbitrary value of the distribution's support and records (kind, parameters, value).
#include "vrng.h"
VDraw v_draws[V_MAX_DRAWS];
int v_ndraws = 0;
int v_mode = V_FREE;
int v_draw_limit = V_MAX_DRAWS;

static int rec(int kind, double p1, double p2) {
    if (v_ndraws >= v_draw_limit) v_stop();
    if (v_mode == V_FORBID) v_check(false, "draws a random number");
    int i = v_ndraws++;
    v_draws[i].kind = kind;
    v_draws[i].p1 = p1;
    v_draws[i].p2 = p2;
    return i;
}

extern "C" double v_draw_real(int kind, double p1, double p2) {
    int i = rec(kind, p1, p2);
    double x;
    if (v_mode == V_REPLAY && i < V_MAX_DRAWS && v_draws[i].have) return v_draws[i].value;
    switch (kind) {
    case std::V_UNIF:
        x = nd_float("uniform", 0.f, 0.99999994f);
        if (p1 != 0 || p2 != 1) x = p1 + (p2 - p1) * x;
        break;
    case std::V_NORMAL: x = nd_real("normal"); v_draws[i].z = x; x = p1 + p2 * x; break;
    case std::V_CHI2: x = nd_pos("chisq"); break;
    case std::V_GAMMA: x = v_gamma_zero ? nd_float("gamma", 0.f, 1000.f) : nd_pos("gamma"); break;
    default: x = nd_pos("draw"); break;
    }
    v_draws[i].value = x;
    return x;
}
int v_gamma_zero = 0;

extern "C" int v_draw_int(int kind, double p1, double p2) {
    int i = rec(kind, p1, p2);
    if (v_mode == V_REPLAY && i < V_MAX_DRAWS && v_draws[i].have) return v_draws[i].value;
    int x;
    switch (kind) {
    case std::V_UNIFINT: {
        int a = p1, b = p2;
        x = nd_int("unifint", a, b);
        break; }
    case std::V_BERN: x = nd_int("bern", 0, 1); break;
    default: x = nd_int("count", 0, 100000); break;
    }
    v_draws[i].value = x;
    return x;
}
