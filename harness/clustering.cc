// C07 (Pitman-Yor part), C08, C09, C21, C24, part of C16
#include "vrng.h"
#include "vmsg.h"
#include <distributions/clustering.hpp>
using namespace distributions;
typedef Clustering<int> Clus;
typedef Clus::PitmanYor PY;
typedef Clus::LowEntropy LE;
typedef std::vector<int> Counts;
#ifndef GK
#define GK 3
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef CMAX
#define CMAX 1000000
#endif
#ifndef SIZE
#define SIZE 4
#endif
static PY py() { PY m; m.alpha = nd_float("alpha", 1.f/1024, 1024); m.d = nd_float("d", 0, 0.99f); return m; }
static int positive(const Counts & c) { int n = 0; for (int x : c) if (x > 0) ++n; return n; }
static int total(const Counts & c) { int n = 0; for (int x : c) n += x; return n; }

// ---- C08
ENTRY(py_step) {              // inductive step of the chain rule, at any position, with empty groups in the list
    v_rng_forbid();
    PY m = py();
    int k = 1 + nd_choice("k", GK);
    Counts c(k);
    for (int i = 0; i < k; ++i) c[i] = nd_int("count", 0, CMAX);
    int g = nd_choice("g", k);
    Counts e = c; ++e[g];
    v_close(m.score_counts(c) + m.score_add_value(c[g], positive(c), total(c)), m.score_counts(e),
            "score of counts grows by the score of the added value");
}
ENTRY(py_base) {
    v_rng_forbid();
    PY m = py();
    Counts c(nd_choice("k", 3));
    v_close(m.score_counts(c), 0, "no values score zero");
}
ENTRY(py_order) {
    v_rng_forbid();
    PY m = py();
    int k = 2 + nd_choice("k", GK - 1);
    Counts c(k);
    for (int i = 0; i < k; ++i) c[i] = nd_int("count", 0, CMAX);
    int g = nd_choice("g", k), h = nd_choice("h", k);
    Counts e = c; std::swap(e[g], e[h]);
    v_close(m.score_counts(c), m.score_counts(e), "order of the groups does not matter");
    e = c; e.insert(e.begin() + g, 0);
    v_close(m.score_counts(c), m.score_counts(e), "an empty group does not matter");
}
ENTRY(py_remove) {
    v_rng_forbid();
    PY m = py();
    int g = nd_int("group_size", 1, CMAX), others = nd_int("others", 0, CMAX), k = nd_int("k", 0, 1000), e = nd_int("empty", 1, 1000);
    v_assume(k <= others);
    v_assume(others == 0 || k > 0);
    int n = g + others;
    v_close(m.score_remove_value(g, k + 1, n, e), -m.score_add_value(g - 1, g == 1 ? k : k + 1, n - 1, e),
            "score of removing is minus the score of adding back");
}
// the probabilities of joining each group sum to one (C07)
ENTRY(py_sum) {
    v_rng_forbid();
    PY m = py();
    int k = nd_choice("k", GK + 1), e = 1 + nd_choice("e", 3);
    Counts c(k);
    for (int i = 0; i < k; ++i) c[i] = nd_int("count", 1, CMAX);
    double sum = 0;
    for (int i = 0; i < k; ++i) sum += std::exp((double)m.score_add_value(c[i], k, total(c), e));
    for (int i = 0; i < e; ++i) sum += std::exp((double)m.score_add_value(0, k, total(c), e));
    v_closed(sum, 1, "probabilities of joining a group sum to one");
}

// ---- C09
template<class Model> struct Shadow {        // the documented protocol, from scratch
    Counts c;
    bool add(int g, int n) { bool fresh = c[g] == 0; c[g] += n; if (fresh) c.push_back(0); return fresh; }
    bool remove(int g, int n) { c[g] -= n; if (c[g]) return false; c[g] = c.back(); c.pop_back(); return true; }
};
template<class Model, class Mix>
static void agree(const Model & m, const Mix & mix, const Counts & c, int empties, bool score) {
    v_eqi(mix.counts().size(), c.size(), "number of groups");
    if (mix.counts().size() != c.size()) v_stop();
    for (size_t i = 0; i < c.size(); ++i) v_eqi(mix.counts()[i], c[i], "group counts");
    v_eqi(mix.sample_size(), total(c), "sample size is the sum of counts");
    v_eqi(mix.empty_groupids().size(), empties, "number of empty groups is constant");
    for (size_t i = 0; i < c.size(); ++i)
        v_check(mix.empty_groupids().count(i) == (c[i] == 0), "exactly the groups of count zero are empty");
    if (!score) return;
    VectorFloat out(c.size());
    for (size_t i = 0; i < c.size(); ++i) out[i] = nd_float("junk", -5, 5);
    mix.score_value(m, out);
    for (size_t i = 0; i < c.size(); ++i)
        v_close(out[i], m.score_add_value(c[i], positive(c), total(c), empties), "score of a value for each group");
    v_close(mix.score_data(m), m.score_counts(c), "data score is the score of the counts");
}
template<class Model, class Mix>
static void history(const Model & m, Mix & mix, int room) {
    Shadow<Model> s;
    int k = nd_choice("k", GK), e = 1 + nd_choice("e", 2);
    int at = nd_choice("at", k + 1);         // where the empty groups sit
    for (int i = 0; i < k + e; ++i) s.c.push_back(i >= at && i < at + e ? 0 : nd_int("count", 1, 1000));
    mix.counts() = s.c;
    mix.init(m);
    if (room) v_assume(total(s.c) < room);
    for (int i = 0; i < OPS; ++i) {
        bool add = nd_choice("add", 2);
        int g = nd_choice("g", s.c.size());
        int n = nd_choice("many", 2) ? nd_int("n", 1, 1000) : 1;
        bool a, b;
        if (add) {
            if (room) v_assume(total(s.c) + n < room);
            a = s.add(g, n); b = n == 1 ? mix.add_value(m, g) : mix.add_value(m, g, n);
            v_check(a == b, "add_value says whether a group was created");
        } else {
            v_assume(s.c[g] >= n);
            a = s.remove(g, n); b = n == 1 ? mix.remove_value(m, g) : mix.remove_value(m, g, n);
            v_check(a == b, "remove_value says whether a group was removed");
        }
        agree(m, mix, s.c, e, i == OPS - 1);
    }
}
template<class Model, class Mix>
static void start(const Model & m, Mix & mix, int room) {
    Counts c(1 + nd_choice("k", GK + 1));
    int e = 0;
    for (auto & x : c) { if (nd_choice("empty", 2)) { x = 0; ++e; } else x = nd_int("count", 1, 1000); }
    if (!e) v_assume(false);
    if (room) v_assume(total(c) < room);
    // the object was used before
    mix.counts() = Counts(1 + nd_choice("before", 2)); mix.init(m);
    mix.add_value(m, 0);
    mix.counts() = c;
    mix.init(m);
    agree(m, mix, c, e, true);
}
static LE le() { LE m; m.dataset_size = nd_int("dataset_size", 1, 100000); return m; }
ENTRY(driver_py) { v_rng_forbid(); PY m = py(); PY::Mixture mix; history(m, mix, 0); }
ENTRY(driver_py_start) { v_rng_forbid(); PY m = py(); PY::Mixture mix; start(m, mix, 0); }
ENTRY(driver_plain) { v_rng_forbid(); PY m = py(); MixtureDriver<PY, int> mix; history(m, mix, 0); }
ENTRY(driver_le) { v_rng_forbid(); LE m = le(); LE::Mixture mix; history(m, mix, m.dataset_size); }
ENTRY(driver_le_start) { v_rng_forbid(); LE m = le(); v_assume(m.dataset_size >= 2); LE::Mixture mix; start(m, mix, m.dataset_size); }

// ---- C24
ENTRY(le_remove) {
    v_rng_forbid();
    LE m = le();
    int g = nd_int("group_size", 1, CMAX), others = nd_int("others", 0, CMAX), k = nd_int("k", 0, 1000), e = nd_int("empty", 1, 1000);
    v_assume(k <= others);
    v_assume(others == 0 || k > 0);
    int n = g + others;
    v_assume(n <= m.dataset_size);
    v_close(m.score_remove_value(g, k + 1, n, e), -m.score_add_value(g - 1, g == 1 ? k : k + 1, n - 1, e),
            "score of removing is minus the score of adding back");
}
ENTRY(le_domain) {            // every reachable state can be scored
    v_rng_forbid();
    LE m = le();
    int k = nd_choice("k", GK + 1), e = 1 + nd_choice("e", 2);
    Counts c;
    for (int i = 0; i < k; ++i) c.push_back(nd_int("count", 1, CMAX));
    v_assume(total(c) <= m.dataset_size);
    bool z = nd_choice("with empties", 2);
    if (z) for (int i = 0; i < e; ++i) c.push_back(0);
    float data = m.score_counts(c);
    if (total(c) == 0) v_close(data, 0, "no values score zero");
    if (total(c) < m.dataset_size) {
        m.score_add_value(0, k, total(c), e);
        if (k) m.score_add_value(c[0], k, total(c), e);
    }
    if (k) m.score_remove_value(c[0], k, total(c), e);
    v_check(true, "scores are defined");
}
ENTRY(le_complete) {
    v_rng_forbid();
    LE m; 
    int k = 1 + nd_choice("k", GK);
    Counts c;
    double want = 0;
    for (int i = 0; i < k; ++i) { int n = nd_int("count", 1, 20000); c.push_back(n); want += (double)n * std::log((double)n); }
    m.dataset_size = total(c);
    float z = m.log_partition_function(total(c));
    v_close(m.score_counts(c), want - z, "complete data score sum n log n minus the log partition function");
}
// the order of the groups and the number of empty ones do not matter
ENTRY(le_order) {
    v_rng_forbid();
    LE m = le();
    int k = 1 + nd_choice("k", GK);
    Counts c(k);
    for (int i = 0; i < k; ++i) c[i] = nd_int("count", 0, 20000);
    v_assume(total(c) <= m.dataset_size);
    int g = nd_choice("g", k), h = nd_choice("h", k);
    Counts e = c; std::swap(e[g], e[h]);
    float s = m.score_counts(c);
    v_close(s, m.score_counts(e), "order of the groups does not matter");
    e = c; e.insert(e.begin() + g, 0);
    v_close(s, m.score_counts(e), "an empty group does not matter");
}
// existing groups: ratio of (n+1)^(n+1) to n^n; new group 0: probability ratio of the definition, up to a common factor
ENTRY(le_add) {
    v_rng_forbid();
    LE m = le();
    int g = nd_int("group_size", 1, 10000), others = nd_int("others", 0, CMAX), e = nd_int("empty", 1, 1000);
    int k = nd_int("groups", 1, 1000);
    v_assume(g + others < m.dataset_size);
    v_assume(k - 1 <= others);
    double n = g;
    v_close(m.score_add_value(g, k, g + others, e), (n + 1) * std::log(n + 1) - n * std::log(n), "score of joining a group");
    v_close(m.score_add_value(0, k, g + others, e), m.score_add_value(0, k, g + others, 1) - std::log((double)e),
            "empty groups share the probability of a new group");
}
ENTRY(le_add_precise) {       // the error of fast_log (run with its contract) is not multiplied by the group size
    v_rng_forbid();
    LE m; m.dataset_size = 100000;
    int g = nd_int("group_size", 1, 10000);
    double n = g, got = m.score_add_value(g, 1, g), want = (n + 1) * std::log(n + 1) - n * std::log(n);
    v_le(got - want, 0.01, "score of joining a group is precise, above");
    v_le(want - got, 0.01, "score of joining a group is precise, below");
}
ENTRY(le_add_last) {          // the last value of the data set: a new group scores 0 (1^1)
    v_rng_forbid();
    LE m = le();
    v_assume(m.dataset_size >= 2);
    v_close(m.score_add_value(0, 1, m.dataset_size - 1, 1), 0, "score of a new group for the last value");
}
ENTRY(le_add_large) {
    v_rng_forbid();
    LE m; m.dataset_size = 100000000;
    int g = nd_int("group_size", 10001, CMAX), others = nd_int("others", 0, CMAX);
    int k = nd_int("groups", 1, 1000), e = nd_int("empty", 1, 1000);
    v_assume(g + others < m.dataset_size);
    v_assume(k - 1 <= others);
    double n = g;
    // 1 - 1/(2n) < n log(1 + 1/n) < 1
    v_le(m.score_add_value(g, k, g + others, e), 1 + std::log(n + 1) + 1e-3, "score of joining a large group, above");
    v_le(1 + std::log(n + 1) - 1e-3, m.score_add_value(g, k, g + others, e), "score of joining a large group, below");
}
ENTRY(le_partition) {         // table and approximation against the exact recurrence
    v_rng_forbid();           // Z(n) = sum_k C(n-1,k-1) k^k Z(n-k)
    LE m; m.dataset_size = 1000;
    const int N = 100;
    int n = nd_choice("n", N);
    double z[N + 1], kk[N + 1];
    z[0] = 1;
    kk[0] = 1;
    for (int k = 1; k <= n; ++k) { kk[k] = 1; for (int i = 0; i < k; ++i) kk[k] *= k; }
    for (int i = 1; i <= n; ++i) {
        z[i] = 0;
        double c = 1;         // C(i-1,k-1)
        for (int k = 1; k <= i; ++k) { z[i] += c * kk[k] * z[i - k]; c = c * (i - k) / k; }
    }
    double got = m.log_partition_function(n), want = std::log(z[n]), tol = n < 48 ? 1e-4 : 0.5;
    v_check(got - want < tol && want - got < tol, "log partition function");
}

// ---- C21
// choice i must be the inverse of the cumulative distribution of likelihoods l[0..n) at uniform u
static void chosen(const double * l, int n, double u, int a, const char * label) {
    double below = 0, sum = 0;
    for (int i = 0; i < n; ++i) { if (i < a) below += l[i]; sum += l[i]; }
    v_le(below, u * sum, label);
    v_le(u * sum, below + l[a], label);
}
static int draw_at = 0;
static double next_uniform() { while (draw_at < v_ndraws && v_draws[draw_at].kind != std::V_UNIF) ++draw_at; return v_draws[draw_at++].value; }
ENTRY(py_sample) {
    rng_t rng; v_rng_allow();
    PY m = py();
    int n = nd_choice("size", SIZE + 1);
    Counts a = m.sample_assignments(n, rng);
    v_eqi(a.size(), n, "requested number of assignments");
    if ((int)a.size() != n) v_stop();
    if (v_ndraws == n && n) draw_at = 1;
    Counts c;
    for (int i = 0; i < n; ++i) {
        v_check(a[i] >= 0 && a[i] <= (int)c.size(), "group ids contiguous in order of first appearance");
        if (a[i] < 0 || a[i] > (int)c.size()) v_stop();
        if (i > 0) {
            double l[SIZE + 1];
            for (size_t j = 0; j < c.size(); ++j) l[j] = std::exp((double)m.score_add_value(c[j], c.size(), i));
            l[c.size()] = std::exp((double)m.score_add_value(0, c.size(), i));
            chosen(l, c.size() + 1, next_uniform(), a[i], "likelihoods proportional to the add-value probabilities");
        }
        if (a[i] == (int)c.size()) c.push_back(0);
        ++c[a[i]];
    }
}
ENTRY(le_sample) {
    rng_t rng; v_rng_allow();
    LE m; m.dataset_size = nd_int("dataset_size", 1, 1000);
    int n = nd_choice("size", SIZE + 1);
    v_assume(n <= m.dataset_size);
    Counts a = m.sample_assignments(n, rng);
    v_eqi(a.size(), n, "requested number of assignments");
    if ((int)a.size() != n) v_stop();
    Counts c;
    for (int i = 0; i < n; ++i) {
        v_check(a[i] >= 0 && a[i] <= (int)c.size(), "group ids within the groups opened so far");
        if (a[i] < 0 || a[i] > (int)c.size()) v_stop();
        double l[SIZE + 1];
        for (size_t j = 0; j < c.size(); ++j) l[j] = std::exp((double)m.score_add_value(c[j], c.size(), i));
        l[c.size()] = std::exp((double)m.score_add_value(0, c.size(), i));
        chosen(l, c.size() + 1, next_uniform(), a[i], "likelihoods proportional to the add-value probabilities");
        if (a[i] == (int)c.size()) c.push_back(0);
        ++c[a[i]];
    }
}
ENTRY(count) {
    v_rng_forbid();
    int n = nd_choice("n", 5);
    Clus::Assignments as;
    int c[4] = {0, 0, 0, 0}, top = -1;
    for (int i = 0; i < n; ++i) { int g = nd_choice("gid", 4); as[i * 37] = g; ++c[g]; if (g > top) top = g; }
    bool ok = true;
    for (int g = 0; g <= top; ++g) if (!c[g]) ok = false;
    if (!ok) { EXPECT_ERROR("rejects assignments whose ids are not contiguous", Clus::count_assignments(as)); return; }
    Counts r = Clus::count_assignments(as);
    {
        v_eqi(r.size(), top + 1, "one count per group");
        if ((int)r.size() == top + 1) for (int g = 0; g <= top; ++g) v_eqi(r[g], c[g], "size of each group");
    }
}

// ---- C16
ENTRY(io) {
    v_rng_forbid();
    PY m = py(), t = py();
    MPY a; m.protobuf_dump(a); t.protobuf_load(a);
    v_close(t.alpha, m.alpha, "alpha"); v_close(t.d, m.d, "d");
    LE e = le(), f = le();
    MLE b; e.protobuf_dump(b); f.protobuf_load(b);
    v_eqi(f.dataset_size, e.dataset_size, "dataset_size");
}
// ---- C22
template<class Model> static void quiet(const Model & m) {
    v_rng_forbid();
    typename Model::Mixture mix;
    Counts c(2); c[0] = nd_int("count", 1, 100); c[1] = 0;
    mix.counts() = c; mix.init(m);
    int g = nd_choice("g", 2);
    mix.add_value(m, g);
    VectorFloat out(mix.counts().size()); mix.score_value(m, out); mix.score_data(m);
    mix.remove_value(m, g);
    m.score_counts(c); m.score_add_value(c[0], 1, c[0]); m.score_remove_value(c[0], 1, c[0]);
    Clus::Assignments as; as[3] = 0; as[9] = 0; Clus::count_assignments(as);
    v_eqi(v_ndraws, 0, "draws no random number");
}
ENTRY(quiet_py) { quiet(py()); }
ENTRY(quiet_le) { LE m; m.dataset_size = 200; quiet(m); }
template<class Model> static void repeat(const Model & m, int n) {
    rng_t rng; v_rng_allow();
    Counts a = m.sample_assignments(n, rng);
    int d = v_ndraws;
    v_rng_rewind();
    Counts b = m.sample_assignments(n, rng);
    v_eqi(v_ndraws, d, "as many draws every time");
    v_eqi(a.size(), b.size(), "the same draws give the same assignments");
    if (a.size() == b.size()) for (size_t i = 0; i < a.size(); ++i) v_eqi(a[i], b[i], "the same draws give the same assignments");
}
ENTRY(repeat_py) { PY m = py(); int n = nd_choice("n", 4); repeat(m, n); }
ENTRY(repeat_le) { LE m; m.dataset_size = nd_int("dataset_size", 3, 1000); int n = nd_choice("n", 4); repeat(m, n); }
