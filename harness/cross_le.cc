// C20, clustering and utilities: the C++ half (see cross.cc)
#include "vrng.h"
#include <distributions/clustering.hpp>
#include <distributions/random.hpp>
using namespace distributions;
typedef Clustering<int>::LowEntropy LE;
#ifndef GK
#define GK 3
#endif
#define XI(N) v_export_i("", #N, -1, N);
ENTRY(le_moves) {
    v_rng_forbid();
    LE m; int dataset = m.dataset_size = nd_int("dataset_size", 1, 100000);
    int group = nd_int("group_size", 0, 100000), others = nd_int("others", 0, 100000), groups = nd_int("k", 0, 1000), empty = nd_int("empty", 1, 1000);
    int sample = group + others;
    v_assume(groups <= others);
    v_assume(sample <= dataset);
    XI(dataset) XI(group) XI(groups) XI(sample) XI(empty)
    if (sample < dataset) v_export_r("", "add", -1, m.score_add_value(group, groups + (group > 0), sample, empty));
    if (group > 0) v_export_r("", "remove", -1, m.score_remove_value(group, groups + 1, sample, empty));
}
ENTRY(le_counts) {
    v_rng_forbid();
    LE m; int dataset = m.dataset_size = nd_int("dataset_size", 1, 100000);
    int groups = nd_choice("k", GK + 1);
    std::vector<int> c(groups);
    int sum = 0;
    for (int i = 0; i < groups; ++i) { c[i] = nd_int("count", 0, 100000); sum += c[i]; v_export_i("", "c", i, c[i]); }
    v_assume(sum <= dataset && (sum == 0 || sum >= 48));       // small totals: le_small
    XI(dataset) XI(groups)
    v_export_r("", "score", -1, m.score_counts(c));
}
ENTRY(le_small) {
    v_rng_forbid();
    LE m; int dataset = m.dataset_size = 100000;
    int sum = nd_choice("sum", 48), first = nd_int("first", 0, sum);
    std::vector<int> c(2); c[0] = first; c[1] = sum - first;
    int groups = 2;
    v_export_i("", "c", 0, c[0]); v_export_i("", "c", 1, c[1]);
    XI(dataset) XI(groups)
    v_export_r("", "score", -1, m.score_counts(c));
}
ENTRY(le_partition) {
    v_rng_forbid();
    LE m; m.dataset_size = 100000;
    int n = nd_int("n", 0, 100000);
    if (n < 48) { n = 0; while (n < 47 && nd_choice("more", 2)) ++n; }
    XI(n)
    v_export_r("", "log_z", -1, m.log_partition_function(n));
}
ENTRY(to_probs) {
    v_rng_forbid();
    int n = 1 + nd_choice("n", 4);
    std::vector<float> p(n);
    for (int i = 0; i < n; ++i) { p[i] = nd_float("score", -100, 100); v_export_r("", "s", i, p[i]); }
    XI(n)
    scores_to_probs(p);
    for (int i = 0; i < n; ++i) v_export_r("", "p", i, p[i]);
}
