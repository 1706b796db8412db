// C07: exponentiated scores of all possible values sum to one
#include "models.h"
typedef MODEL M;
typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
struct Values { Value v[8]; int n; void push_back(Value x) { v[n++] = x; } const Value * begin() const { return v; } const Value * end() const { return v + n; } };
static const Values & support(const Shared & s) {
    static Values r; r.n = 0;
    if (std::is_same<M, BB>::value) { r.push_back(0); r.push_back(1); }
    else if (std::is_same<M, DD>::value) { for (int i = 0; i < DD_DIM; ++i) r.push_back(i); }
#ifdef IS_DPD
    else { for (int i = 0; i < DPD_DIM; ++i) r.push_back(dpd_keys[i]); r.push_back(DirichletProcessDiscrete::OTHER()); }
#endif
    return r;
}
ENTRY(group_sum) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    double sum = 0;
    for (Value v : support(s)) sum += std::exp((double)g.score_value(s, v, rng));
    v_closed(sum, 1, "probabilities of all values sum to one");
}
ENTRY(scorer_sum) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    M::Model::Scorer c; c.init(s, g, rng);
    double sum = 0;
    for (Value v : support(s)) sum += std::exp((double)c.eval(s, v, rng));
    v_closed(sum, 1, "probabilities of all values from a scorer sum to one");
}
ENTRY(history_sum) {          // contents reached through the operations
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group a, b; a.init(s, rng); b.init(s, rng);
    Value v = M::value(s), w = M::value(s);
    a.add_value(s, v, rng);
    b.add_repeated_value(s, w, nd_int("n", 1, 1000), rng);
    b.add_value(s, v, rng);
    if (nd_choice("merge", 2)) a.merge(s, b, rng);
    if (nd_choice("remove", 2)) a.remove_value(s, v, rng);
    double sum = 0;
    for (Value v : support(s)) sum += std::exp((double)a.score_value(s, v, rng));
    v_closed(sum, 1, "probabilities of all values sum to one after a history");
}
#ifdef IS_DPD
ENTRY(dpd_shared_sum) {       // sticks reached by adding values to the shared parameters
    rng_t rng; v_rng_allow();
    Shared s; MDPDShared m; m.set_gamma(nd_float("gamma", 1.f/1024, 1024)); m.set_alpha(nd_float("alpha", 1.f/1024, 1024)); s.protobuf_load(m);
    s.add_value(dpd_keys[0], rng);
    v_assume(s.beta0 > 1e-3f);
    s.add_value(dpd_keys[1], rng);
    v_assume(s.beta0 > 1e-3f);
    Group g; M::group(s, g, rng);
    double sum = std::exp((double)g.score_value(s, DirichletProcessDiscrete::OTHER(), rng));
    for (int i = 0; i < 2; ++i) sum += std::exp((double)g.score_value(s, dpd_keys[i], rng));
    v_closed(sum, 1, "probabilities of all values sum to one with drawn sticks");
}
#endif
