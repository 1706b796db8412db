// C15: stick breaking in the Dirichlet-process-discrete shared parameters
#include "models.h"
#ifndef STICKS
#define STICKS 2
#endif
#ifndef REALIZE
#define REALIZE 3
#endif
#ifndef OPS
#define OPS 1
#endif
typedef DPD::Shared Shared;
static const double MINB = 1e-6f;
static double total(const Shared & s) { double t = s.beta0; for (auto const & i : s.betas) t += i.second; return t; }
static int sticks(const Shared & s) { int n = 0; for (auto const & i : s.betas) { (void)i; ++n; } return n; }
static int counted(const Shared & s) { int n = 0; for (auto const & i : s.counts) { (void)i; ++n; } return n; }
// everything the property says about one state (but the total)
static void sane(const Shared & s, const char * l) {
    v_check(s.beta0 >= 0, l); v_check(s.beta0 <= 1, l);
    for (auto const & i : s.betas) { v_check(i.second > 0, "every stick is positive"); v_check(s.counts.get_count(i.first) > 0, "a stick only while the count is nonzero"); }
    for (auto const & i : s.counts) v_check(s.betas.contains(i.first), "a stick while the count is nonzero");
    v_eqi(sticks(s), counted(s), "as many sticks as counted values");
}
// any state a history can lead to: the total may exceed one by a minimum stick per value ever added
static void state(Shared & s, int n, bool small) {
    MDPDShared m; m.set_gamma(nd_float("gamma", 1.f/1024, 1024)); m.set_alpha(1);
    double sum = 0;
    for (int i = 0; i < n; ++i) {
        float b = nd_float("beta", 1e-6f, 1.f);
        sum += b; m.add_values(dpd_keys[i]); m.add_betas(b); m.add_counts(small ? 1 + nd_choice("scount", 2) : nd_int("scount", 1, CMAX));
    }
    v_assume(sum <= 1);
    s.protobuf_load(m);
}
static void step(Shared & s, rng_t & rng) {
    double before = total(s); float b0 = s.beta0;
    uint32_t v = dpd_keys[nd_choice("v", STICKS + 1)];
    int c = s.counts.get_count(v), n = sticks(s);
    if (nd_choice("op", 2)) {
        v_assume(s.beta0 > 0 || c > 0);
        s.add_value(v, rng);
        v_eqi(s.counts.get_count(v), c + 1, "adding a value counts it");
        v_eqi(sticks(s), n + (c == 0), "a new value breaks one stick");
        v_check(total(s) - before >= -1e-7, "adding conserves the total");
        v_check(total(s) - before <= (c ? 1e-7 : MINB + 1e-7), "adding conserves the total (up to the minimum stick)");
        if (c) v_close(s.beta0, b0, "adding a known value leaves the remainder");
        else { v_check(s.betas.get(v) >= b0 * 0.9e-6, "a new stick is at least the minimum share of the remainder"); v_check(s.betas.get(v) <= b0 + 1e-7, "a new stick is broken off the remainder"); }
    } else {
        v_assume(c > 0);
        s.remove_value(v, rng);
        v_eqi(s.counts.get_count(v), c - 1, "removing a value counts it");
        v_eqi(sticks(s), n - (c == 1), "removing the last value returns its stick");
        v_check(total(s) - before <= 1e-7, "removing conserves the total");
        v_check(total(s) >= (before < 1 ? before : 1) - 1e-7, "removing conserves the total");
        if (c == 1) v_check(!s.betas.contains(v), "no stick without a count");
    }
    sane(s, "the remainder is a probability");
}
ENTRY(history) {
    rng_t rng; v_rng_allow();
    Shared s; state(s, nd_choice("sticks", STICKS + 1), false);
    v_close(total(s), 1, "loading gives sticks and remainder that sum to one");
    sane(s, "the remainder is a probability");
    for (int i = 0; i < OPS; ++i) step(s, rng);
}
// a history from scratch: the total stays one up to a minimum stick per addition
ENTRY(scratch) {
    rng_t rng; v_rng_allow();
    Shared s; state(s, 0, true);
    int added = 0;
    for (int i = 0; i < OPS + 2; ++i) {
        uint32_t v = dpd_keys[nd_choice("v", 2)];
        int c = s.counts.get_count(v);
        if (c > 0 && nd_choice("op", 2)) s.remove_value(v, rng); else { s.add_value(v, rng); if (!c) ++added; }
        sane(s, "the remainder is a probability");
        v_check(total(s) >= 1 - 1e-6, "total at least one");
        v_check(total(s) <= 1 + added * MINB + 1e-6, "total at most one and the minimum sticks");
    }
}
ENTRY(known) {      // draws nothing unless a new value appears
    rng_t rng; v_rng_forbid();
    Shared s; state(s, STICKS, true);
    uint32_t v = dpd_keys[nd_choice("v", STICKS)];
    float b0 = s.beta0; s.add_value(v, rng); v_close(s.beta0, b0, "the remainder is unchanged"); s.remove_value(v, rng); s.remove_value(v, rng); sane(s, "the remainder is a probability");
}
ENTRY(realize) {
    rng_t rng; v_rng_allow(); v_draw_limit = 2 * REALIZE;
    Shared s; state(s, nd_choice("sticks", STICKS + 1), true);
    double before = total(s); float b0 = s.beta0; int n = sticks(s);
    Shared t; t = s;
    s.realize(rng);
    v_close(s.beta0, 0, "nothing is left unallocated");
    v_check(total(s) >= before - 1e-7, "realizing conserves the total");
    v_check(total(s) <= before + (sticks(s) - n) * MINB + 1e-7, "realizing conserves the total (up to the minimum sticks)");
    if (b0 > 0) v_check(sticks(s) > n, "the remainder becomes a stick"); else v_eqi(sticks(s), n, "nothing to realize");
    for (auto const & i : t.betas) { v_check(s.betas.contains(i.first), "old sticks are kept"); v_close(s.betas.get(i.first), i.second, "old sticks are kept");
        v_eqi(s.counts.get_count(i.first), t.counts.get_count(i.first), "old counts are kept"); }
    sane(s, "the remainder is a probability");
}
// loading: a state with the guarantees, or an error, whatever the object held before
ENTRY(load) {
    rng_t rng; v_rng_forbid();
    Shared s; state(s, nd_choice("before", 2), true);
    MDPDShared m; m.set_gamma(nd_float("gamma", 1.f/1024, 1024)); m.set_alpha(nd_float("alpha", 1.f/1024, 1024));
    int n = nd_choice("sticks", STICKS + 1);
    double sum = 0;
    for (int i = 0; i < n; ++i) { float b = nd_float("beta", 1e-6f, 1.f); sum += b; m.add_values(dpd_keys[i]); m.add_betas(b); m.add_counts(nd_u32("scount", 1, CMAX)); }
    v_assume(sum <= 1 + 0.9e-4);
    s.protobuf_load(m);
    v_eqi(sticks(s), n, "as many sticks as in the message");
    for (int i = 0; i < n; ++i) { v_close(s.betas.get(m.values(i)), m.betas(i), "stick as in the message"); v_eqi(s.counts.get_count(m.values(i)), m.counts(i), "count as in the message"); }
    v_close(s.gamma, m.gamma(), "gamma"); v_close(s.alpha, m.alpha(), "alpha");
    v_check(total(s) >= 1 - 1e-6, "sticks and remainder sum to one"); v_check(total(s) <= 1 + 1.01e-4, "sticks and remainder sum to one");
    sane(s, "the remainder is a probability");
}
ENTRY(load_bad) {
    rng_t rng; v_rng_forbid();
    Shared s; state(s, nd_choice("before", 2), true);
    MDPDShared m; m.set_gamma(1); m.set_alpha(1);
    int n = 1 + nd_choice("sticks", STICKS), bad = nd_choice("bad", 6), at = nd_choice("at", n);
    double sum = 0;
    for (int i = 0; i < n; ++i) {
        float b = bad == 0 && i == at ? nd_float("beta", -1, 0) : nd_float("beta", 1e-6f, 1.f); sum += b;
        m.add_values(bad == 1 && i == n - 1 ? dpd_keys[0] : dpd_keys[i]); m.add_betas(b); m.add_counts(bad == 2 && i == at ? 0 : nd_u32("scount", 1, CMAX)); }
    if (bad == 5) v_assume(sum > 1 + 1.1e-4); else v_assume(sum <= 1);
    if (bad == 1 && n == 1) v_stop();
    if (bad == 3) m.add_betas(1e-6f);
    if (bad == 4) m.add_counts(1);
    EXPECT_ERROR("a message without the guarantees is rejected", s.protobuf_load(m));
}
