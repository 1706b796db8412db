// C26: threads that share only what they query do not race. One model per build, or none (-DNOMODEL).
#include "models.h"
#include <distributions/random.hpp>
#include <distributions/special.hpp>
#include <distributions/vector.hpp>
#include <distributions/vector_math.hpp>
#include <distributions/mixture.hpp>
#include <distributions/clustering.hpp>
#ifdef MODEL
typedef MODEL M;
typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
#ifndef MIX
#define MIX FastMixture
#endif
#ifdef M_NIW
typedef MixtureSlave<M::Model> Mix;
#else
typedef M::Model::MIX Mix;
#endif
static void fill(const Shared & s, Mix & mix, int n, rng_t & rng) {
    mix.groups().resize(n);
    for (int i = 0; i < n; ++i) M::group(s, mix.groups(i), rng);
    mix.init(s, rng);
}
// scoring against one mixture, scoring and sampling from one group
ENTRY(queries) {
    rng_t rng;
    Shared s; M::shared(s, rng);
    Mix mix; fill(s, mix, 2, rng);
    Value v = M::value(s), w = M::value(s);
    if (nd_choice("before", 2)) { VectorFloat acc(2); vector_zero(2, acc.data()); mix.score_value(s, v, acc, rng); }
    auto f = [&](int i) {
        rng_t r;
        const Mix & m = mix;
        VectorFloat acc(2);
        vector_zero(2, acc.data());
        m.score_value(s, i ? v : w, acc, r);
        m.score_value_group(s, 1, i ? w : v, r);
        m.groups(0).score_value(s, i ? v : w, r);
        m.groups(1).score_data(s, r);
        m.validate(s);
    };
    THREADS(f)
}
ENTRY(sampling) {
    rng_t rng;
    Shared s; M::shared(s, rng);
    Mix mix; fill(s, mix, 1, rng);
    auto f = [&](int) { rng_t r; const Mix & m = mix; m.groups(0).sample_value(s, r); };
    THREADS(f)
}
// data scores of one group's mixture each (a scorer is not shared), against the same grid
ENTRY(data) {
    rng_t rng;
    std::vector<Shared> grid(2);
    M::shared(grid[0], rng); grid[1] = grid[0]; M::vary(grid[1]);
    Mix mix[2];
    for (int i = 0; i < 2; ++i) fill(grid[0], mix[i], 1 + i, rng);
    auto f = [&](int i) {
        rng_t r;
        const Mix & m = mix[i];
        m.score_data(grid[i], r);
        VectorFloat out(2);
        m.score_data_grid(grid, out, r);
    };
    THREADS(f)
}
// a mixture each, sharing hyperparameters
ENTRY(updates) {
    rng_t rng;
    Shared s; M::shared(s, rng);
    Mix mix[2];
    for (int i = 0; i < 2; ++i) fill(s, mix[i], 1 + i, rng);
    Value v[2] = {M::value(s), M::value(s)};
#ifdef IS_DPD
    for (auto & i : s.counts) v_assume(i.second >= 20);
#endif
    auto f = [&](int i) {
        rng_t r;
        mix[i].add_value(s, 0, v[i], r);
        mix[i].add_group(s, r);
        mix[i].add_value(s, 1, v[i], r);
        mix[i].remove_value(s, 0, v[i], r);
        mix[i].remove_group(s, 0);
        VectorFloat acc(mix[i].groups().size());
        vector_zero(acc.size(), acc.data());
        mix[i].score_value(s, v[i], acc, r);
        mix[i].init(s, r);
        Group g; g.init(s, r); g.add_repeated_value(s, v[i], 3, r); g.merge(s, mix[i].groups(0), r);
    };
    THREADS(f)
}
// hyperparameters each: the driver's protocol from nothing
ENTRY(own) {
    rng_t rng;
    Shared s; M::shared(s, rng);
    Value v[2] = {M::value(s), M::value(s)};
    Shared mine[2] = {s, s};
    auto f = [&](int i) {
        rng_t r;
        Mix m;
        mine[i].add_value(v[i], r);
        m.init(mine[i], r);
        m.add_group(mine[i], r);
        m.add_value(mine[i], 0, v[i], r);
        m.remove_value(mine[i], 0, v[i], r);
        mine[i].remove_value(v[i], r);
#ifndef IS_DPD                // (draws sticks until they are used up)
        mine[i].realize(r);
#endif
    };
    THREADS(f)
}
#else
typedef Clustering<int> Clus;
ENTRY(stirling) {
    size_t n[2];
    for (int i = 0; i < 2; ++i) { static const int e[] = {0, 1, 2, 5, 31, 32, 40}; n[i] = e[nd_choice("n", 7)]; }
    if (nd_choice("before", 2)) log_stirling1_row(3);
    auto f = [&](int i) { std::vector<float, aligned_allocator<float>> r; get_log_stirling1_row(n[i], r); };
    THREADS(f)
}
ENTRY(pitman_yor) {
    Clus::PitmanYor m; m.alpha = nd_float("alpha", 1.f/1024, 1024); m.d = nd_float("d", 0, 0.99f);
    std::vector<int> c(2); for (auto & x : c) x = nd_int("count", 0, 1000);
    Clus::PitmanYor::Mixture one, own[2];
    one.counts() = {3, 0, 2}; one.init(m);
    for (auto & x : own) { x.counts() = {3, 0, 2}; x.init(m); }
    auto f = [&](int i) {
        rng_t r;
        m.score_counts(c);
        m.score_add_value(c[0], 2, c[0] + c[1], 1);
        m.sample_assignments(2, r);
        const Clus::PitmanYor::Mixture & q = one;
        VectorFloat acc(3); vector_zero(3, acc.data());
        q.score_value(m, acc);
        q.score_data(m);
        own[i].add_value(m, 1); own[i].remove_value(m, 2); own[i].remove_value(m, 2);
        VectorFloat out(own[i].counts().size()); own[i].score_value(m, out);
    };
    THREADS(f)
}
ENTRY(low_entropy) {
    Clus::LowEntropy m; m.dataset_size = 1000;
    std::vector<int> c(2); for (auto & x : c) x = nd_int("count", 1, 400);
    MixtureDriver<Clus::LowEntropy, int> one, own[2];
    one.counts() = {3, 0, 2}; one.init(m);
    for (auto & x : own) { x.counts() = {3, 0, 2}; x.init(m); }
    auto f = [&](int i) {
        rng_t r;
        m.score_counts(c);
        m.score_add_value(c[0], 2, c[0] + c[1], 1);
        m.score_remove_value(c[0], 2, c[0] + c[1], 1);
        m.log_partition_function(c[1]);
        const MixtureDriver<Clus::LowEntropy, int> & q = one;
        VectorFloat acc(3); vector_zero(3, acc.data());
        q.score_value(m, acc);
        q.score_data(m);
        own[i].add_value(m, 1); own[i].remove_value(m, 2); own[i].remove_value(m, 2);
        VectorFloat out(own[i].counts().size()); own[i].score_value(m, out);
    };
    THREADS(f)
}
ENTRY(low_entropy_sample) {
    Clus::LowEntropy m; m.dataset_size = 10;
    auto f = [&](int) { rng_t r; m.sample_assignments(2, r); };
    THREADS(f)
}
ENTRY(random) {               // every sampling function against itself, and against one that uses most of the others
    std::vector<float> p = {.25f, .75f};
    std::vector<float> scores; for (int i = 0; i < 2; ++i) scores.push_back(nd_float("score", -5, 5));
    const int op = nd_choice("op", 16);
    const bool other = nd_choice("other", 2);
    auto f = [&](int i) {
        rng_t r;
        std::vector<float> a = scores;
        float out[2];
        switch (i && other ? 5 : op) {
        case 0: sample_discrete(r, 2, p.data()); break;
        case 1: sample_from_probs(r, p); break;
        case 2: sample_from_likelihoods(r, p); break;
        case 3: sample_from_scores(r, scores); break;
        case 4: sample_from_scores_overwrite(r, a); break;
        case 5: sample_prob_from_scores_overwrite(r, a); break;
        case 6: score_from_scores_overwrite(r, 1, a); break;
        case 7: scores_to_probs(a); break;
        case 8: log_sum_exp(scores); break;
        case 9: sample_dirichlet(r, 2, p.data(), out); break;
        case 10: sample_dirichlet_safe(r, 2, p.data(), out, 1e-3f); break;
        case 11: sample_from_urn(r, p); break;
        case 12: sample_pair_from_urn(r, p); break;
        case 13: sample_beta_safe(r, 2, 3, 1e-3f); break;
        case 14: sample_normal(r, 1, 2); sample_chisq(r, 3); sample_std_normal(r); sample_int(r, 0, 3); break;
        default: sample_poisson(r, 2); sample_bernoulli(r, .5f); sample_negative_binomial(r, .5f, 2);
        }
    };
    THREADS(f)
}
ENTRY(special) {              // (the real approximations, at some values)
    static const float e[] = {.3f, 1.f, 2.6f, 700.f};
    float x[2]; for (auto & y : x) y = e[nd_choice("x", 4)];
    auto f = [&](int i) {
        float y = x[i];
        y += fast_log(x[i]); y += fast_lgamma(x[i]); y += fast_lgamma_nu(x[i]); y += fast_log_factorial((uint32_t) x[i]);
        y += fast_log_sum_exp(i, 1); y += log_sum_exp(i, 1); y += fast_log_beta(x[i], 2); y += fast_log_binom(x[i] + 1, 1);
        y += lmultigamma(2, x[i] + 1); y += fast_exp(-1);
        y += fast_score_student_t(x[i], 3, 1, 2); y += score_student_t(x[i], 3, 1, 2);
        (void) y;
    };
    THREADS(f)
}
ENTRY(vectors) {
    std::vector<float> in; for (int i = 0; i < 5; ++i) in.push_back(nd_float("x", .5f, 5));
    const float * a = in.data();
    auto f = [&](int) {
        float b[5]; for (float & x : b) x = 1.5f;
        vector_sum(5, a); vector_dot(5, a, a); vector_min(5, a); vector_max(5, a);
        vector_add(5, b, a); vector_multiply_add(5, b, a, a);
        vector_exp(5, a, b); vector_log(5, a, b); vector_lgamma(5, a, b); vector_lgamma_nu(5, a, b);
        vector_log(5, b); vector_zero(5, b); vector_shift(5, b, 2.f); vector_scale(5, b, 2.f); vector_negate(5, b);
    };
    THREADS(f)
}
ENTRY(containers) {
    MixtureIdTracker one, own[2];
    one.init(3); one.add_group(); one.remove_group(1);
    SparseCounter<int, int> c; c.init_count(3, 2); c.init_count(5, 7);
    for (auto & x : own) x.init(2);
    int k = nd_int("key", 0, 9);
    auto f = [&](int i) {
        const MixtureIdTracker & q = one;
        q.packed_to_global(0); q.global_to_packed(0); q.packed_size();
        own[i].add_group(); own[i].remove_group(0); own[i].packed_to_global(0);
        const SparseCounter<int, int> & d = c;
        d.get_count(k); d.get_total();
        SparseCounter<int, int> e = d; e.add(k); e.remove(k); e.merge(d);
    };
    THREADS(f)
}
#endif
