// C16: dump / load round trips of every C++ model (one per build)
#include "models.h"
typedef MODEL M;
typedef M::Shared Shared; typedef M::Group Group;

#define SAMEF(A, B) v_close((A), (B), "hyperparameter reproduced")
#define SAMEI(A, B) v_eqi((A), (B), "statistic reproduced")
#ifdef M_NIW
static void fresh(Shared & s) { rng_t r; M::shared(s, r); }
static void old_shared(Shared & s, rng_t & rng) { s.mu.resize(NIW_N); s.psi.resize(NIW_N, NIW_N); s.mu.setZero(); s.psi.setZero(); s.kappa = 3; s.nu = 7; }
static void same(const Shared & a, const Shared & b) { v_eqi(a.mu.rows(), b.mu.rows(), "dimension"); v_eqi(a.psi.rows(), b.psi.rows(), "dimension"); v_eqi(a.psi.cols(), b.psi.cols(), "dimension");
    for (int i = 0; i < NIW_N; ++i) { SAMEF(a.mu(i), b.mu(i)); for (int j = 0; j < NIW_N; ++j) SAMEF(a.psi(i, j), b.psi(i, j)); } SAMEF(a.kappa, b.kappa); SAMEF(a.nu, b.nu); }
static void msg(const M::MS & m, const Shared & s) { v_eqi(m.mu_size(), NIW_N, "dimension"); v_eqi(m.psi_size(), NIW_N * NIW_N, "dimension"); if (m.mu_size() != NIW_N || m.psi_size() != NIW_N * NIW_N) v_stop();
    for (int i = 0; i < NIW_N; ++i) { SAMEF(m.mu(i), s.mu(i)); for (int j = 0; j < NIW_N; ++j) SAMEF(m.psi(i * NIW_N + j), s.psi(i, j)); } SAMEF(m.kappa(), s.kappa); SAMEF(m.nu(), s.nu); }
static void msg(const M::MG & m, const Group & g) { v_eqi(m.sum_x_size(), NIW_N, "dimension"); v_eqi(m.sum_xxt_size(), NIW_N * NIW_N, "dimension"); if (m.sum_x_size() != NIW_N || m.sum_xxt_size() != NIW_N * NIW_N) v_stop();
    SAMEI(m.count(), g.count); for (int i = 0; i < NIW_N; ++i) { v_close(m.sum_x(i), g.sum_x(i), "sum_x"); for (int j = 0; j < NIW_N; ++j) v_close(m.sum_xxt(i * NIW_N + j), g.sum_xxT(i, j), "sum_xxT"); } }
static void dirty(M::MS & m) { m.add_mu(1); m.add_psi(2); m.set_kappa(3); m.set_nu(9); }
static void dirty(M::MG & m) { m.set_count(5); m.add_sum_x(1); m.add_sum_xxt(2); }
#else
template<class T> static void old_shared(T & s, rng_t & rng) { M::shared(s, rng); }
static void fresh(BB::Shared & s) { s.alpha = nd_pos("alpha"); s.beta = nd_pos("beta"); }
static void same(const BB::Shared & a, const BB::Shared & b) { SAMEF(a.alpha, b.alpha); SAMEF(a.beta, b.beta); }
static void msg(const MBBShared & m, const BB::Shared & s) { SAMEF(m.alpha(), s.alpha); SAMEF(m.beta(), s.beta); }
static void fresh(const BB::Shared &, BB::Group & g) { g.heads = nd_int("heads", 0, 2000000000); g.tails = nd_int("tails", 0, 2000000000); }
static void same(const BB::Group & a, const BB::Group & b) { SAMEI(a.heads, b.heads); SAMEI(a.tails, b.tails); }
static void msg(const MBBGroup & m, const BB::Group & g) { SAMEI(m.heads(), g.heads); SAMEI(m.tails(), g.tails); }
static void dirty(MBBShared &) {} static void dirty(MBBGroup &) {}

static void fresh(GP::Shared & s) { s.alpha = nd_pos("alpha"); s.inv_beta = nd_pos("inv_beta"); }
static void same(const GP::Shared & a, const GP::Shared & b) { SAMEF(a.alpha, b.alpha); SAMEF(a.inv_beta, b.inv_beta); }
static void msg(const MGPShared & m, const GP::Shared & s) { SAMEF(m.alpha(), s.alpha); SAMEF(m.inv_beta(), s.inv_beta); }
static void fresh(const GP::Shared &, GP::Group & g) { g.count = nd_u32("count", 0, 0xffffffffu); g.sum = nd_u32("sum", 0, 0xffffffffu); g.log_prod = nd_real("log_prod"); }
static void same(const GP::Group & a, const GP::Group & b) { SAMEI(a.count, b.count); SAMEI(a.sum, b.sum); v_close(a.log_prod, b.log_prod, "log_prod"); }
static void msg(const MGPGroup & m, const GP::Group & g) { SAMEI(m.count(), g.count); SAMEI(m.sum(), g.sum); v_close(m.log_prod(), g.log_prod, "log_prod"); }
static void dirty(MGPShared &) {} static void dirty(MGPGroup &) {}

static void fresh(BNB::Shared & s) { s.alpha = nd_pos("alpha"); s.beta = nd_pos("beta"); s.r = nd_u32("r", 1, 1000000); }
static void same(const BNB::Shared & a, const BNB::Shared & b) { SAMEF(a.alpha, b.alpha); SAMEF(a.beta, b.beta); SAMEI(a.r, b.r); }
static void msg(const MBNBShared & m, const BNB::Shared & s) { SAMEF(m.alpha(), s.alpha); SAMEF(m.beta(), s.beta); SAMEI(m.r(), s.r); }
static void fresh(const BNB::Shared &, BNB::Group & g) { g.count = nd_u32("count", 0, 0xffffffffu); g.sum = nd_u32("sum", 0, 0xffffffffu); }
static void same(const BNB::Group & a, const BNB::Group & b) { SAMEI(a.count, b.count); SAMEI(a.sum, b.sum); }
static void msg(const MBNBGroup & m, const BNB::Group & g) { SAMEI(m.count(), g.count); SAMEI(m.sum(), g.sum); }
static void dirty(MBNBShared &) {} static void dirty(MBNBGroup &) {}

static void fresh(NICH::Shared & s) { s.mu = nd_real("mu"); s.kappa = nd_pos("kappa"); s.sigmasq = nd_pos("sigmasq"); s.nu = nd_pos("nu"); }
static void same(const NICH::Shared & a, const NICH::Shared & b) { SAMEF(a.mu, b.mu); SAMEF(a.kappa, b.kappa); SAMEF(a.sigmasq, b.sigmasq); SAMEF(a.nu, b.nu); }
static void msg(const MNICHShared & m, const NICH::Shared & s) { SAMEF(m.mu(), s.mu); SAMEF(m.kappa(), s.kappa); SAMEF(m.sigmasq(), s.sigmasq); SAMEF(m.nu(), s.nu); }
static void fresh(const NICH::Shared &, NICH::Group & g) { g.count = nd_int("count", 0, 2000000000); g.mean = nd_real("mean"); g.count_times_variance = nd_real("ctv"); }
static void same(const NICH::Group & a, const NICH::Group & b) { SAMEI(a.count, b.count); v_close(a.mean, b.mean, "mean"); v_close(a.count_times_variance, b.count_times_variance, "count_times_variance"); }
static void msg(const MNICHGroup & m, const NICH::Group & g) { SAMEI(m.count(), g.count); v_close(m.mean(), g.mean, "mean"); v_close(m.count_times_variance(), g.count_times_variance, "count_times_variance"); }
static void dirty(MNICHShared &) {} static void dirty(MNICHGroup &) {}

static void fresh(DD::Shared & s) { s.dim = 1 + nd_choice("dim", DD_MAX); for (int i = 0; i < s.dim; ++i) s.alphas[i] = nd_pos("alpha"); }
static void same(const DD::Shared & a, const DD::Shared & b) { v_eqi(a.dim, b.dim, "dimension"); if (a.dim != b.dim) v_stop(); for (int i = 0; i < a.dim; ++i) SAMEF(a.alphas[i], b.alphas[i]); }
static void msg(const MDDShared & m, const DD::Shared & s) { v_eqi(m.alphas_size(), s.dim, "dimension"); if (m.alphas_size() != s.dim) v_stop(); for (int i = 0; i < s.dim; ++i) SAMEF(m.alphas(i), s.alphas[i]); }
static void fresh(const DD::Shared & s, DD::Group & g) { g.dim = s.dim; g.count_sum = 0; for (int i = 0; i < g.dim; ++i) g.count_sum += g.counts[i] = nd_int("count", 0, 100000000); }
static void same(const DD::Group & a, const DD::Group & b) { v_eqi(a.dim, b.dim, "dimension"); if (a.dim != b.dim) v_stop(); for (int i = 0; i < a.dim; ++i) SAMEI(a.counts[i], b.counts[i]); SAMEI(a.count_sum, b.count_sum); }
static void msg(const MDDGroup & m, const DD::Group & s) { v_eqi(m.counts_size(), s.dim, "dimension"); if (m.counts_size() != s.dim) v_stop(); for (int i = 0; i < s.dim; ++i) SAMEI(m.counts(i), s.counts[i]); }
static void dirty(MDDShared & m) { m.add_alphas(3); } static void dirty(MDDGroup & m) { m.add_counts(7); }

static void fresh(DPD::Shared & s) {
    s.gamma = nd_pos("gamma"); s.alpha = nd_pos("alpha"); s.betas.clear(); s.counts.clear();
    int n = nd_choice("sticks", DPD_DIM + 1); float sum = 0;
    for (int i = 0; i < n; ++i) { float b = nd_float("beta", 1e-6f, 1); sum += b; s.betas.add(dpd_keys[i], b); s.counts.add(dpd_keys[i], nd_int("scount", 1, 1000000000)); }
    v_assume(sum <= 1); s.beta0 = 1 - sum; }
static int size(const DPD::Shared & s) { int n = 0; for (auto const & i : s.betas) { (void)i; ++n; } return n; }
static int csize(const DPD::Shared & s) { int n = 0; for (auto const & i : s.counts) { (void)i; ++n; } return n; }
static void same(const DPD::Shared & a, const DPD::Shared & b) { SAMEF(a.gamma, b.gamma); SAMEF(a.alpha, b.alpha); SAMEF(a.beta0, b.beta0); v_eqi(size(a), size(b), "sticks"); v_eqi(csize(a), csize(b), "counts");
    for (auto const & i : b.betas) { v_check(a.betas.contains(i.first), "stick kept"); SAMEF(a.betas.get(i.first), i.second); SAMEI(a.counts.get_count(i.first), b.counts.get_count(i.first)); }
    SAMEI(a.counts.get_total(), b.counts.get_total()); }
static void msg(const MDPDShared & m, const DPD::Shared & s) { SAMEF(m.gamma(), s.gamma); SAMEF(m.alpha(), s.alpha); v_eqi(m.values_size(), size(s), "sticks"); v_eqi(m.betas_size(), size(s), "sticks"); v_eqi(m.counts_size(), size(s), "sticks");
    if (m.values_size() != size(s) || m.betas_size() != size(s) || m.counts_size() != size(s)) v_stop();
    for (int i = 0; i < m.values_size(); ++i) { v_check(s.betas.contains(m.values(i)), "stick of a known value"); SAMEF(m.betas(i), s.betas.get(m.values(i))); SAMEI(m.counts(i), s.counts.get_count(m.values(i))); } }
static void fresh(const DPD::Shared & s, DPD::Group & g) { g.counts.clear(); for (int i = 0; i < DPD_DIM; ++i) if (nd_choice("has", 2)) g.counts.init_count(dpd_keys[i], nd_int("count", 1, 100000000)); }
static int size(const DPD::Group & s) { int n = 0; for (auto const & i : s.counts) { (void)i; ++n; } return n; }
static void same(const DPD::Group & a, const DPD::Group & b) { v_eqi(size(a), size(b), "counts"); for (auto const & i : b.counts) SAMEI(a.counts.get_count(i.first), i.second); SAMEI(a.counts.get_total(), b.counts.get_total()); }
static void msg(const MDPDGroup & m, const DPD::Group & g) { v_eqi(m.keys_size(), size(g), "keys"); v_eqi(m.values_size(), size(g), "values"); if (m.keys_size() != size(g) || m.values_size() != size(g)) v_stop();
    for (int i = 0; i < m.keys_size(); ++i) SAMEI(m.values(i), g.counts.get_count(m.keys(i))); }
static void dirty(MDPDShared & m) { m.add_values(3); m.add_betas(1); m.add_counts(2); } static void dirty(MDPDGroup & m) { m.mutable_keys()->Add(3); m.mutable_values()->Add(2); }
#endif

ENTRY(shared) {
    rng_t rng; v_rng_forbid();
    Shared s, t; fresh(s); old_shared(t, rng);
    M::MS m; dirty(m);
    s.protobuf_dump(m);
    msg(m, s);
    t.protobuf_load(m);
    same(t, s);
    M::MS n; t.protobuf_dump(n); msg(n, s);
}
ENTRY(group) {
    rng_t rng; v_rng_forbid();
    Shared s; 
    Group g, h;
#ifdef M_NIW
    M::shared(s, rng); M::group(s, g, rng);
    h.init(s, rng); h.count = 3; h.sum_x.setConstant(2); h.sum_xxT.setConstant(5);
#else
    M::shared(s, rng); M::group(s, h, rng); fresh(s); fresh(s, g);
#endif
    M::MG m; dirty(m);
    g.protobuf_dump(m);
    msg(m, g);
    h.protobuf_load(m);
#ifdef M_NIW
    M::same(h, g, "statistic reproduced");
#else
    same(h, g);
#endif
    M::MG n; h.protobuf_dump(n); msg(n, g);
}
#ifdef M_NIW
ENTRY(bad) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng); Group g; g.init(s, rng);
    int bad = nd_choice("bad", 6);
    if (bad < 4) {
        M::MS m; s.protobuf_dump(m);
        if (bad == 0) m.add_mu(0);
        if (bad == 1) m.add_psi(1);
        if (bad == 2) m.set_kappa(-nd_pos("kappa"));
        if (bad == 3) m.set_nu(nd_float("nu", -10, NIW_N - 1.01f));
        EXPECT_ERROR("a shared message that does not fit is rejected", s.protobuf_load(m));
    } else {
        M::MG m; g.protobuf_dump(m);
        if (bad == 4) m.add_sum_x(0);
        if (bad == 5) m.add_sum_xxt(0);
        EXPECT_ERROR("a group message that does not fit is rejected", g.protobuf_load(m));
    }
}
#endif
#ifdef IS_DD
ENTRY(bad) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng); Group g; g.init(s, rng);
    int n = DD_MAX + 1 + nd_choice("extra", 3);
    if (nd_choice("which", 2)) {
        M::MS m; for (int i = 0; i < n; ++i) m.add_alphas(nd_pos("alpha"));
        EXPECT_ERROR("too many dimensions are rejected", s.protobuf_load(m));
    } else {
        M::MG m; for (int i = 0; i < n; ++i) m.add_counts(nd_u32("count", 0, 1000));
        EXPECT_ERROR("too many dimensions are rejected", g.protobuf_load(m));
    }
}
#endif
#ifdef IS_DPD
ENTRY(bad) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng); Group g; g.init(s, rng);
    int bad = nd_choice("bad", 4);
    if (bad < 2) {
        M::MS m; s.protobuf_dump(m);
        if (bad == 0) m.add_betas(0.0001f); else m.add_counts(1);
        EXPECT_ERROR("mismatched lengths are rejected", s.protobuf_load(m));
    } else {
        M::MG m; m.mutable_keys()->Add(dpd_keys[0]); m.mutable_values()->Add(1);
        if (bad == 2) m.mutable_keys()->Add(dpd_keys[1]); else m.mutable_values()->Add(3);
        EXPECT_ERROR("mismatched lengths are rejected", g.protobuf_load(m));
    }
}
#endif
