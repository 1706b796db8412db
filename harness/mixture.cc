// C05 cached value scores, C06 data scores and grids: one model per build (-DMODEL=..., -DMIX=FastMixture|SmallMixture)
#include "models.h"
#ifndef MIX
#define MIX FastMixture
#endif
#ifndef GROUPS
#define GROUPS 2
#endif
#ifndef GRID
#define GRID 3
#endif
#ifndef REGROUPS
#define REGROUPS 3
#endif
#ifndef OPS
#define OPS 1
#endif
typedef MODEL M;
typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
#ifdef M_NIW
typedef MixtureSlave<M::Model> Mix;
#else
typedef M::Model::MIX Mix;
#endif

#ifdef IS_DPD
static void plenty(const Shared & s) { for (auto & i : s.counts) v_assume(i.second >= 20); }
#else
static void plenty(const Shared &) {}
#endif

// the vector of scores and each single score against the groups' own scores
static void compare(const Shared & s, Mix & mix, const Value & v, rng_t & rng) {
    const size_t n = mix.groups().size();
    VectorFloat acc(n);
    float in[8], want[8];
    for (size_t i = 0; i < n; ++i) acc[i] = in[i] = nd_float("acc", -50, 50);
    for (size_t i = 0; i < n; ++i) want[i] = mix.groups(i).score_value(s, v, rng);
    mix.score_value(s, v, acc, rng);
    for (size_t i = 0; i < n; ++i) {
        v_close(acc[i], in[i] + want[i], "vector score is added to the caller's buffer");
        v_close(mix.score_value_group(s, i, v, rng), want[i], "score of one group");
    }
    mix.validate(s);
}
static Value scored(const Shared & s) {
#ifdef IS_DPD
    if (nd_choice("other", 2)) return 0xFFFFFFFFU;
#endif
    return M::value(s);
}
static void fill(const Shared & s, Mix & mix, int n, rng_t & rng) {
    mix.groups().resize(n);
    for (int i = 0; i < n; ++i) M::group(s, mix.groups(i), rng);
}
// every group holds one known value (so that removing it is legal) on top of arbitrary contents
static Value held[8]; static bool holds[8];
static void op(const Shared & s, Mix & mix, rng_t & rng) {
    const int n = mix.groups().size();
    switch (nd_choice("op", 4)) {
    case 0: if (n >= GROUPS + OPS) v_assume(false); holds[n] = false; mix.add_group(s, rng); break;
    case 1: {
        if (n < 2) v_assume(false);
        int g = nd_choice("group", n);
        mix.remove_group(s, g);
        held[g] = held[n - 1]; holds[g] = holds[n - 1];
        break;
    }
    case 2: {
        int g = nd_choice("group", n);
        held[g] = M::value(s); holds[g] = true;
        mix.add_value(s, g, held[g], rng);
        break;
    }
    case 3: {
        int g = nd_choice("group", n);
        if (!holds[g]) v_assume(false);
        holds[g] = false;
        mix.remove_value(s, g, held[g], rng);
        break;
    }
    }
}
ENTRY(init_scores) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Mix mix;
    fill(s, mix, 1 + nd_choice("groups", GROUPS), rng);
    mix.init(s, rng);
    compare(s, mix, scored(s), rng);
}
ENTRY(op_scores) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng); plenty(s);
    Mix mix;
    fill(s, mix, GROUPS, rng);
    for (int i = 0; i < GROUPS; ++i) { held[i] = M::value(s); holds[i] = true; mix.groups(i).add_value(s, held[i], rng); }
    mix.init(s, rng);
    for (int i = 0; i < OPS; ++i) op(s, mix, rng);
    compare(s, mix, scored(s), rng);
}
// a mixture object used before is reset by init, with another number of groups and other hyperparameters
ENTRY(reinit_scores) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Shared t; M::shared(t, rng);
    Mix mix;
    fill(s, mix, 2, rng);
    mix.init(s, rng);
    Value v = M::value(s);
    VectorFloat acc(2); mix.score_value(s, v, acc, rng);
    mix.groups().clear();
    fill(t, mix, 1 + nd_choice("groups", REGROUPS), rng);
    mix.init(t, rng);
    compare(t, mix, M::value(t), rng);
}
#ifndef M_NIW
// from nothing, by the driver's protocol: values enter the shared parameters first and leave them last
ENTRY(scratch_scores) {
    rng_t rng; v_rng_allow();
    Shared s;
#ifdef IS_DPD
    { MDPDShared m; m.set_gamma(nd_float("gamma", 1.f/1024, 1024)); m.set_alpha(nd_float("alpha", 1.f/1024, 1024)); s.protobuf_load(m); }
#else
    M::shared(s, rng);
#endif
    Mix mix;
    mix.init(s, rng);
    mix.add_group(s, rng); mix.add_group(s, rng);
#ifdef IS_DPD
    Value v = dpd_keys[0], w = dpd_keys[nd_choice("w", 2)];
#else
    Value v = M::value(s), w = M::value(s);
#endif
    int g = nd_choice("g", 2);
    s.add_value(v, rng); mix.add_value(s, 0, v, rng);
    s.add_value(w, rng); mix.add_value(s, g, w, rng);
    compare(s, mix, w, rng);
    switch (nd_choice("then", 3)) {
    case 0: mix.remove_value(s, 0, v, rng); s.remove_value(v, rng); compare(s, mix, w, rng); break;
    case 1: mix.remove_value(s, g, w, rng); s.remove_value(w, rng); compare(s, mix, v, rng); break;
    case 2:
        mix.remove_value(s, 0, v, rng); s.remove_value(v, rng);
        if (g != 0) { mix.remove_group(s, 0); g = 0; }
        mix.add_group(s, rng);
        s.add_value(v, rng); mix.add_value(s, 1, v, rng);
        mix.remove_value(s, g, w, rng); s.remove_value(w, rng);
        compare(s, mix, v, rng);
    }
}
// values put into the groups before init leave again
ENTRY(drain_scores) {
    rng_t rng; v_rng_allow();
    Shared s;
#ifdef IS_DPD
    { MDPDShared m; m.set_gamma(nd_float("gamma", 1.f/1024, 1024)); m.set_alpha(nd_float("alpha", 1.f/1024, 1024)); s.protobuf_load(m); }
    Value v = dpd_keys[0], w = dpd_keys[nd_choice("w", 2)];
#else
    M::shared(s, rng);
    Value v = M::value(s), w = M::value(s);
#endif
    Mix mix; mix.groups().resize(2);
    for (int i = 0; i < 2; ++i) mix.groups(i).init(s, rng);
    int g = nd_choice("g", 2);
    s.add_value(v, rng); mix.groups(0).add_value(s, v, rng);
    s.add_value(w, rng); mix.groups(g).add_value(s, w, rng);
    mix.init(s, rng);
    if (nd_choice("twice", 2)) mix.init(s, rng);
    if (nd_choice("first", 2)) { mix.remove_value(s, 0, v, rng); s.remove_value(v, rng); compare(s, mix, w, rng); }
    else { mix.remove_value(s, g, w, rng); s.remove_value(w, rng); compare(s, mix, v, rng); }
}
#ifdef IS_DPD
// the shared parameters have other sticks when the mixture is initialised again
ENTRY(resticks_scores) {
    rng_t rng; v_rng_forbid();
    Shared s, t; M::shared(s, rng);
    Mix mix;
    fill(s, mix, 1, rng);
    mix.init(s, rng);
    static const unsigned masks[] = {0, 1, 2, 8, 9, 11};
    const unsigned mask = masks[nd_choice("mask", 6)];
    MDPDShared m; m.set_gamma(1); m.set_alpha(nd_float("alpha", 1.f/1024, 1024));
    float sum = 0;
    for (int k = 0; k < 4; ++k) if (mask >> k & 1) {
        float b = nd_float("beta", 1.f/1024, 1.f); sum += b;
        m.add_values(dpd_keys[k]); m.add_betas(b); m.add_counts(1);
    }
    v_assume(sum < 0.999f);
    t.protobuf_load(m);
    const int n = 1 + nd_choice("groups", 2);
    mix.groups().clear(); mix.groups().resize(n);
    for (int i = 0; i < n; ++i) {
        mix.groups(i).init(t, rng);
        for (int k = 0; k < 4; ++k) if ((mask >> k & 1) && nd_choice("has", 2)) mix.groups(i).add_value(t, dpd_keys[k], rng);
    }
    mix.init(t, rng);
    int k = nd_choice("k", 5);
    if (k == 4) compare(t, mix, 0xFFFFFFFFU, rng);
    else if (mask >> k & 1) compare(t, mix, dpd_keys[k], rng);
    else { VectorFloat acc(n); mix.validate(t); EXPECT_ERROR("a value without a stick has no score", mix.score_value(t, dpd_keys[k], acc, rng)); }
}
#endif
#endif
// C06
ENTRY(data) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Mix mix;
    int n = nd_choice("groups", GROUPS + 1);
    mix.groups().resize(n);
    for (int i = 0; i < n; ++i)
        if (nd_choice("empty", 2)) mix.groups(i).init(s, rng); else M::group(s, mix.groups(i), rng);
    mix.init(s, rng);
    float sum = 0;
    for (int i = 0; i < n; ++i) sum += mix.groups(i).score_data(s, rng);
    v_close(mix.score_data(s, rng), sum, "data score is the sum over groups");
}
// a data scorer used before gives the same score
ENTRY(data_again) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Shared t; M::shared(t, rng);
    Mix mix;
    fill(s, mix, 2, rng);
    mix.init(s, rng);
    mix.score_data(t, rng);
    mix.remove_group(s, 0);
    v_close(mix.score_data(s, rng), mix.groups(0).score_data(s, rng), "data score does not depend on earlier calls");
}
ENTRY(grid) {
    rng_t rng; v_rng_forbid();
    std::vector<Shared> grid(GRID);
    Shared s; M::shared(s, rng);
    for (int i = 0; i < GRID; ++i) {
        // a fresh point, or a repeat of an earlier one
        if (i > 0 && nd_choice("repeat", 2)) grid[i] = grid[nd_choice("of", i)];
        else M::shared(grid[i], rng);
    }
    Mix mix;
    fill(s, mix, 2, rng);
    mix.init(s, rng);
    VectorFloat out(GRID);
    for (int i = 0; i < GRID; ++i) out[i] = nd_float("junk", -5, 5);
    mix.score_data_grid(grid, out, rng);
    for (int i = 0; i < GRID; ++i) {
        float sum = mix.groups(0).score_data(grid[i], rng) + mix.groups(1).score_data(grid[i], rng);
        v_close(out[i], sum, "grid score equals the score of the grid point");
    }
}
ENTRY(grid_partial) {     // points that differ in some hyperparameters only
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    std::vector<Shared> grid(GRID, s);
    for (int i = 1; i < GRID; ++i) { grid[i] = grid[i - 1]; M::vary(grid[i]); }
    Mix mix;
    fill(s, mix, 2, rng);
    mix.init(s, rng);
    VectorFloat out(GRID);
    mix.score_data_grid(grid, out, rng);
    for (int i = 0; i < GRID; ++i) {
        float sum = mix.groups(0).score_data(grid[i], rng) + mix.groups(1).score_data(grid[i], rng);
        v_close(out[i], sum, "grid score equals the score of the grid point (partial change)");
    }
}
