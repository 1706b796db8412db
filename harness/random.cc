// C11 discrete samplers, C12 score conversions, C13 Dirichlet and beta draws
#include "vrng.h"
#include <distributions/random.hpp>
#include <distributions/vector.hpp>
using namespace distributions;
#ifndef DIM
#define DIM 4
#endif
#ifdef ALIGNED
typedef VectorFloat Vec;
#else
typedef std::vector<float> Vec;
#endif
static int uniforms() { int n = 0; for (int i = 0; i < v_ndraws; ++i) { v_check(v_draws[i].kind == std::V_UNIF && v_draws[i].p1 == 0 && v_draws[i].p2 == 1, "draws from the unit interval"); ++n; } return n; }
// inverse of the cumulative distribution at the uniform draw
static void inverse(const double * l, size_t n, size_t a) {
    v_eqi(uniforms(), 1, "one uniform draw");
    if (v_ndraws != 1) v_stop();
    double u = v_draws[0].value;
    v_check(a < n, "choice in range");
    if (a >= n) v_stop();
    double below = 0, sum = 0;
    for (size_t i = 0; i < n; ++i) { if (i < a) below += l[i]; sum += l[i]; }
    v_le(below, u * sum, "inverse of the cumulative distribution");
    v_le(u * sum, below + l[a], "inverse of the cumulative distribution");
    v_check(l[a] > 0, "a choice of zero likelihood is never returned");
}
static size_t likelihoods(Vec & v, double * l, float hi) {
    size_t n = 1 + nd_choice("n", DIM);
    v.resize(n);
    double sum = 0;
    for (size_t i = 0; i < n; ++i) { v[i] = nd_float("likelihood", 0, hi); l[i] = v[i]; sum += l[i]; }
    v_assume(sum > 0);
    return n;
}
static size_t probs(Vec & v, double * l) {       // symbolic probabilities that sum to one
    size_t n = 1 + nd_choice("n", DIM);
    v.resize(n);
    float rest = 1;
    size_t last = nd_choice("last", n);
    for (size_t i = 0; i < n; ++i) if (i != last) { v[i] = nd_float("p", 0, 1); rest -= v[i]; }
    v_assume(rest >= 0);
    v[last] = rest;
    for (size_t i = 0; i < n; ++i) l[i] = v[i];
    return n;
}
static size_t scores(Vec & v, double * l) {
    size_t n = 1 + nd_choice("n", DIM);
    v.resize(n);
    for (size_t i = 0; i < n; ++i) { v[i] = nd_float("score", -20, 20); l[i] = std::exp((double)v[i]); }
    return n;
}
// ---- C11
ENTRY(discrete) { rng_t rng; Vec v; double l[DIM]; size_t n = probs(v, l); inverse(l, n, sample_discrete(rng, n, v.data())); }
ENTRY(from_probs) { rng_t rng; Vec v; double l[DIM]; size_t n = probs(v, l); inverse(l, n, sample_from_probs(rng, v)); }
ENTRY(from_likelihoods) { rng_t rng; Vec v; double l[DIM]; size_t n = likelihoods(v, l, 1000); inverse(l, n, sample_from_likelihoods(rng, v)); }
ENTRY(from_likelihoods_total) {
    rng_t rng; Vec v; double l[DIM]; size_t n = likelihoods(v, l, 1000);
    float total = 0; for (size_t i = 0; i < n; ++i) total += v[i];
    inverse(l, n, sample_from_likelihoods(rng, v, total));
}
ENTRY(from_scores) { rng_t rng; Vec v; double l[DIM]; size_t n = scores(v, l); inverse(l, n, sample_from_scores(rng, v)); for (size_t i = 0; i < n; ++i) v_close(v[i], std::log(l[i]), "scores are left alone"); }
ENTRY(from_scores_overwrite) { rng_t rng; Vec v; double l[DIM]; size_t n = scores(v, l); inverse(l, n, sample_from_scores_overwrite(rng, v)); }
ENTRY(prob_from_scores) {
    rng_t rng; Vec v; double l[DIM]; size_t n = scores(v, l);
    std::pair<size_t, float> r = sample_prob_from_scores_overwrite(rng, v);
    inverse(l, n, r.first);
    double sum = 0; for (size_t i = 0; i < n; ++i) sum += l[i];
    v_closed(r.second, l[r.first] / sum, "reported probability of the choice");
}
ENTRY(bernoulli) {
    rng_t rng; float p = nd_float("p", 0, 1);
    bool b = sample_bernoulli(rng, p);
    v_eqi(uniforms(), 1, "one uniform draw");
    if (v_ndraws != 1) v_stop();
    double u = v_draws[0].value;
    if (b) v_check(p > 0, "an event of probability zero never happens");
    else v_check(p < 1, "an event of probability one always happens");
    v_check(b ? u <= p : u >= p, "happens with the given probability");
}
static std::vector<int> urn() { std::vector<int> v(nd_choice("n", DIM + 2)); for (size_t i = 0; i < v.size(); ++i) v[i] = 100 + 7 * i; return v; }
static int position(const std::vector<int> & v, int x) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) return i; return -1; }
ENTRY(from_urn) {
    rng_t rng;
    std::vector<int> v = urn();
    if (v.empty()) EXPECT_ERROR("an empty urn is an error", sample_from_urn(rng, v));
    int x = sample_from_urn(rng, v);
    v_eqi(v_ndraws, 1, "one draw");
    v_check(v_draws[0].kind == std::V_UNIFINT && v_draws[0].p2 - v_draws[0].p1 + 1 == v.size(), "uniform over as many integers as there are choices");
    int a = position(v, x), da = v_draws[0].value;
    v_check(a >= 0, "returns an element of the urn");
    v_ndraws = 0;
    int y = sample_from_urn(rng, v);
    v_check((position(v, y) == a) == (v_draws[0].value == da), "every element has its own draw");
}
ENTRY(pair_from_urn) {
    rng_t rng;
    std::vector<int> v = urn();
    if (v.size() < 2) EXPECT_ERROR("an urn of fewer than two is an error", sample_pair_from_urn(rng, v));
    std::pair<int, int> x = sample_pair_from_urn(rng, v);
    v_eqi(v_ndraws, 2, "two draws");
    if (v_ndraws != 2) v_stop();
    double all = 1;
    for (int i = 0; i < 2; ++i) { v_check(v_draws[i].kind == std::V_UNIFINT, "draws integers"); all *= v_draws[i].p2 - v_draws[i].p1 + 1; }
    v_check(all == v.size() * (v.size() - 1), "as many draws as ordered pairs");
    int a = position(v, x.first), b = position(v, x.second), d0 = v_draws[0].value, d1 = v_draws[1].value;
    v_check(a >= 0 && b >= 0 && a != b, "two distinct positions");
    v_ndraws = 0;
    std::pair<int, int> y = sample_pair_from_urn(rng, v);
    bool same = position(v, y.first) == a && position(v, y.second) == b;
    v_check(same == (v_draws[0].value == d0 && v_draws[1].value == d1), "every ordered pair has its own draw");
}
// ---- C12
ENTRY(to_likelihoods) {
    v_rng_forbid();
    Vec v; double l[DIM]; size_t n = scores(v, l);
    float total = scores_to_likelihoods(v);
    double sum = 0;
    v_eqi(v.size(), n, "size");
    for (size_t i = 0; i < n; ++i) { sum += v[i]; v_closed((double)v[i] * l[0], (double)v[0] * l[i], "ratios are preserved"); v_check(v[i] > 0, "likelihoods are positive"); }
    v_closed(total, sum, "total likelihood");
}
ENTRY(to_probs) {
    v_rng_forbid();
    Vec v; double l[DIM]; size_t n = scores(v, l);
    scores_to_probs(v);
    double sum = 0, all = 0;
    for (size_t i = 0; i < n; ++i) all += l[i];
    for (size_t i = 0; i < n; ++i) { sum += v[i]; v_closed(v[i], l[i] / all, "probability is likelihood over total"); }
    v_closed(sum, 1, "probabilities sum to one");
}
ENTRY(shift) {
    v_rng_forbid();
    Vec v; double l[DIM]; size_t n = scores(v, l);
    float c = nd_float("shift", -1000, 1000);
    Vec w(v);
    for (size_t i = 0; i < n; ++i) w[i] += c;
    v_close(log_sum_exp(w), (double)log_sum_exp(v) + c, "log-sum-exp moves with a common shift");
    size_t k = nd_choice("k", n);
    rng_t rng; v_rng_allow();
    Vec a(v), b(w);
    v_close(score_from_scores_overwrite(rng, k, a), score_from_scores_overwrite(rng, k, b), "score of a choice ignores a common shift");
    v_rng_forbid();
    scores_to_probs(v); scores_to_probs(w);
    for (size_t i = 0; i < n; ++i) v_closed(v[i], w[i], "probabilities ignore a common shift");
}
ENTRY(lse) {
    v_rng_forbid();
    Vec v; double l[DIM];
    v_close(log_sum_exp(v), 0, "log-sum-exp of nothing");
    size_t n = scores(v, l);
    double all = 0;
    for (size_t i = 0; i < n; ++i) all += l[i];
    v_closed(std::exp((double)log_sum_exp(v)), all, "log-sum-exp is the log of the summed likelihoods");
}
ENTRY(score_of_choice) {
    rng_t rng; v_rng_allow();
    Vec v; double l[DIM]; size_t n = scores(v, l), k = nd_choice("k", n);
    double all = 0;
    for (size_t i = 0; i < n; ++i) all += l[i];
    v_closed(std::exp((double)score_from_scores_overwrite(rng, k, v)), l[k] / all, "score of a choice is its log probability");
}
// scores as far apart as they come in practice: nothing overflows (exp_guard), nothing turns into NaN
ENTRY(extreme) {
    v_rng_forbid();
    Vec v; size_t n = 1 + nd_choice("n", DIM), k = nd_choice("k", n);
    v.resize(n);
    for (size_t i = 0; i < n; ++i) v[i] = nd_float("score", -10000, 10000);
    Vec p(v), q(v), r(v);
    scores_to_probs(p);
    double sum = 0;
    for (size_t i = 0; i < n; ++i) { sum += p[i]; v_le(0, p[i], "probabilities are not negative"); }
    v_closed(sum, 1, "probabilities sum to one");
    float total = scores_to_likelihoods(q);
    v_le(1, total, "the best choice has likelihood one");
    rng_t rng; v_rng_allow();
    v_close(score_from_scores_overwrite(rng, k, r) + log_sum_exp(v), v[k], "score of a choice is relative to log-sum-exp");
}
// ---- C13
static void dirichlet(bool zero, bool alias) {
    rng_t rng; v_rng_allow(); v_gamma_zero = zero;
    size_t n = 1 + nd_choice("n", DIM);
    float alpha[DIM], out[DIM + 1]; double al[DIM], asum = 0;
    for (size_t i = 0; i < n; ++i) { alpha[i] = nd_choice("zero", 2) ? 0 : nd_float("alpha", 1.f/1024, 1024); al[i] = alpha[i]; asum += al[i]; }
    v_assume(asum > 0);
    float * p = alias ? alpha : out;
    for (size_t i = 0; i <= n; ++i) out[i] = -7;
    sample_dirichlet(rng, n, alpha, p);
    double sum = 0, gsum = 0; int d = 0; double g[DIM];
    for (size_t i = 0; i < n; ++i) {
        g[i] = 0;
        if (al[i] > 0) {
            v_check(d < v_ndraws && v_draws[d].kind == std::V_GAMMA, "one gamma draw per positive parameter");
            if (d >= v_ndraws) v_stop();
            v_close(v_draws[d].p1, al[i], "gamma draw with the parameter"); v_close(v_draws[d].p2, 1, "unit scale");
            g[i] = v_draws[d++].value; gsum += g[i];
        }
        sum += p[i];
        v_check(p[i] >= 0 && p[i] <= 1, "entries in [0,1]");
        if (al[i] == 0) v_check(p[i] == 0, "zero at a zero parameter");
        else if (!zero) v_check(p[i] > 0, "positive at a positive parameter");
    }
    v_closed(sum, 1, "entries sum to one");
    if (gsum > 0) for (size_t i = 0; i < n; ++i) v_closed((double)p[i] * gsum, g[i], "entries are the normalised gamma draws");
    if (!alias) v_check(out[n] == -7, "nothing is written after the output");
}
ENTRY(dirichlet) { dirichlet(false, false); }
ENTRY(dirichlet_alias) { dirichlet(false, true); }
ENTRY(dirichlet_underflow) { dirichlet(true, false); }      // gamma draws that underflow to zero
ENTRY(dirichlet_underflow_alias) { dirichlet(true, true); }
static void safe(bool zero, bool alias) {
    rng_t rng; v_rng_allow(); v_gamma_zero = zero;
    size_t n = 1 + nd_choice("n", DIM);
    float alpha[DIM], out[DIM];
    float m = nd_float("min_value", 0, 1);
    for (size_t i = 0; i < n; ++i) { alpha[i] = nd_choice("zero", 2) ? 0 : nd_float("alpha", 1.f/1024, 1024); v_assume(alpha[i] + m > 0); }
    float * p = alias ? alpha : out;
    sample_dirichlet_safe(rng, n, alpha, p, m);
    double sum = 0, floor = m / (1.0 + (double)m * n);
    for (size_t i = 0; i < n; ++i) { sum += p[i]; v_le(floor, p[i], "entries keep the floor"); v_le(p[i], 1, "entries at most one"); }
    v_closed(sum, 1, "entries sum to one");
}
ENTRY(dirichlet_safe) { safe(false, false); }
ENTRY(dirichlet_safe_alias) { safe(false, true); }
ENTRY(dirichlet_safe_underflow) { safe(true, nd_choice("alias", 2)); }
ENTRY(beta) {
    rng_t rng; v_rng_allow(); v_gamma_zero = 1;
    float a = nd_float("a", 1.f/1024, 1024), b = nd_float("b", 1.f/1024, 1024);
    float x = sample_beta(rng, a, b);
    v_check(x >= 0 && x <= 1, "beta draw in [0,1]");
    v_check(v_ndraws >= 2 && v_draws[0].kind == std::V_GAMMA && v_draws[1].kind == std::V_GAMMA, "two gamma draws");
    double g = v_draws[0].value, h = v_draws[1].value;
    v_close(v_draws[0].p1 + v_draws[1].p1, (double)a + b, "gamma draws with the parameters");
    if (g + h > 0) { bool first = v_draws[0].p1 == a; v_closed((double)x * (g + h), first ? g : h, "ratio of gamma draws"); }
    else v_check(x == 0 || x == 1, "underflow gives an end point");
}
ENTRY(beta_safe) {
    rng_t rng; v_rng_allow(); v_gamma_zero = 1;
    float a = nd_float("a", 1.f/1024, 1024), b = nd_float("b", 1.f/1024, 1024), m = nd_float("min_value", 0, 1);
    float x = sample_beta_safe(rng, a, b, m);
    v_le(m / (1.0 + m), x, "safe beta draw keeps the floor");
    v_le(x, 1, "safe beta draw at most one");
}
// ---- C22: scoring a choice consumes as much as sampling it; the same draws give the same results
ENTRY(score_like_sample) {
    rng_t rng; v_rng_allow();
    Vec v; double l[DIM]; size_t n = scores(v, l);
    Vec a(v), b(v), c(v);
    size_t k = sample_from_scores_overwrite(rng, a);
    int d = v_ndraws;
    v_ndraws = 0;
    score_from_scores_overwrite(rng, k, b);
    v_eqi(v_ndraws, d, "scoring a choice consumes as many random numbers as sampling it");
    for (int i = 0; i < d; ++i) v_eqi(v_draws[i].kind, std::V_UNIF, "uniform draws");
    v_ndraws = 0;
    sample_from_scores(rng, c);
    v_eqi(v_ndraws, d, "sampling always consumes the same amount");
    v_ndraws = 0;
    sample_prob_from_scores_overwrite(rng, v);
    v_eqi(v_ndraws, d, "sampling with its probability consumes the same amount");
    (void)n;
}
ENTRY(quiet_scores) {
    v_rng_forbid();
    Vec v; double l[DIM]; size_t n = scores(v, l);
    Vec a(v);
    log_sum_exp(v); scores_to_likelihoods(a); scores_to_probs(v);
    v_eqi(v_ndraws, 0, "draws no random number");
    (void)n;
}
ENTRY(repeat_choice) {
    rng_t rng; v_rng_allow();
    Vec v; double l[DIM]; size_t n = scores(v, l);
    Vec a(v), b(v);
    size_t i = sample_from_scores_overwrite(rng, a), j = sample_from_likelihoods(rng, a), k = sample_discrete(rng, n, a.data());
    int d = v_ndraws;
    v_rng_rewind();
    v_eqi(sample_from_scores_overwrite(rng, b), i, "the same draws give the same choice");
    v_eqi(sample_from_likelihoods(rng, b), j, "the same draws give the same choice");
    v_eqi(sample_discrete(rng, n, b.data()), k, "the same draws give the same choice");
    v_eqi(v_ndraws, d, "as many draws every time");
}
ENTRY(repeat_dirichlet) {
    rng_t rng; v_rng_allow();
    size_t n = 1 + nd_choice("n", DIM);
    float alpha[DIM], p[DIM], q[DIM];
    for (size_t i = 0; i < n; ++i) { alpha[i] = nd_float("alpha", 1.f/1024, 1024); q[i] = nd_float("junk", 0, 1); }
    sample_dirichlet(rng, n, alpha, p); float x = sample_beta(rng, alpha[0], alpha[n - 1]);
    int d = v_ndraws;
    v_rng_rewind();
    sample_dirichlet(rng, n, alpha, q);
    for (size_t i = 0; i < n; ++i) v_close(p[i], q[i], "the same draws give the same result");
    v_close(sample_beta(rng, alpha[0], alpha[n - 1]), x, "the same draws give the same result");
    v_eqi(v_ndraws, d, "as many draws every time");
}
