// Per-model access for the harnesses: symbolic hyperparameters, arbitrary (reachable) group
// contents, symbolic values and comparison of every sufficient statistic.
// Only public entry points are used: protobuf_load / protobuf_dump and the Group/Shared methods.
#pragma once
#include "vrng.h"
#include "vmsg.h"
#ifndef M_NIW
#include <distributions/models/bb.hpp>
#include <distributions/models/bnb.hpp>
#include <distributions/models/dd.hpp>
#include <distributions/models/dpd.hpp>
#include <distributions/models/gp.hpp>
#include <distributions/models/nich.hpp>
#else
#include <distributions/models/niw.hpp>
#endif
#include <distributions/clustering.hpp>
#include <string>
using namespace distributions;

#ifndef CMAX
#define CMAX 1000000
#endif
#ifndef RMAX
#define RMAX 1000000
#endif
#ifndef VMAX
#define VMAX 1000
#endif

#ifndef M_NIW
struct BB {
    typedef BetaBernoulli Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef MBBShared MS; typedef MBBGroup MG;
    static void shared(Shared & s, rng_t &) { MS m; m.set_alpha(nd_float("alpha", 1.f/1024, 1024)); m.set_beta(nd_float("beta", 1.f/1024, 1024)); s.protobuf_load(m); }
    static void vary(Shared & s) { if (nd_choice("which", 2)) s.alpha = nd_float("alpha", 1.f/1024, 1024); else s.beta = nd_float("beta", 1.f/1024, 1024); }
    static void group(const Shared & s, Group & g, rng_t & rng) { g.init(s, rng); MG m; m.set_heads(nd_int("heads", 0, CMAX)); m.set_tails(nd_int("tails", 0, CMAX)); g.protobuf_load(m); }
    static Value value(const Shared &) { return nd_choice("v", 2); }
    static int count(const Group & g) { MG m; g.protobuf_dump(m); return m.heads() + m.tails(); }
    static void same(const Group & a, const Group & b, const char * l) { MG x, y; a.protobuf_dump(x); b.protobuf_dump(y);
        v_eqi(x.heads(), y.heads(), l); v_eqi(x.tails(), y.tails(), l); }
    static void contains(const Shared &, const Group & g, Value v) { MG m; g.protobuf_dump(m); v_assume((v ? m.heads() : m.tails()) > 0); }
};
struct BNB {
    typedef BetaNegativeBinomial Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef MBNBShared MS; typedef MBNBGroup MG;
    static void shared(Shared & s, rng_t &) { MS m; m.set_alpha(nd_float("alpha", 1.f/1024, 1024)); m.set_beta(nd_float("beta", 1.f/1024, 1024)); m.set_r(nd_u32("r", 1, RMAX)); s.protobuf_load(m); }
    static void vary(Shared & s) { if (nd_choice("which", 2)) s.alpha = nd_float("alpha", 1.f/1024, 1024); else s.r = nd_u32("r", 1, RMAX); }
    static void group(const Shared & s, Group & g, rng_t & rng) { g.init(s, rng); MG m; m.set_count(nd_u32("count", 0, CMAX)); m.set_sum(nd_u32("sum", 0, CMAX)); g.protobuf_load(m); v_assume(m.count() > 0 || m.sum() == 0); }
    static Value value(const Shared &) { return nd_u32("v", 0, VMAX); }
    static int count(const Group & g) { MG m; g.protobuf_dump(m); return m.count(); }
    static void same(const Group & a, const Group & b, const char * l) { MG x, y; a.protobuf_dump(x); b.protobuf_dump(y);
        v_eqi(x.count(), y.count(), l); v_eqi(x.sum(), y.sum(), l); }
    static void contains(const Shared &, const Group & g, Value v) { MG m; g.protobuf_dump(m); v_assume(m.count() > 0 && m.sum() >= v && (m.count() > 1 || m.sum() == v)); }
};
struct GP {
    typedef GammaPoisson Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef MGPShared MS; typedef MGPGroup MG;
    static void shared(Shared & s, rng_t &) { MS m; m.set_alpha(nd_float("alpha", 1.f/1024, 1024)); m.set_inv_beta(nd_float("inv_beta", 1.f/1024, 1024)); s.protobuf_load(m); }
    static void vary(Shared & s) { if (nd_choice("which", 2)) s.alpha = nd_float("alpha", 1.f/1024, 1024); else s.inv_beta = nd_float("inv_beta", 1.f/1024, 1024); }
    static void group(const Shared & s, Group & g, rng_t & rng) { g.init(s, rng); MG m; m.set_count(nd_u32("count", 0, CMAX));
        if (m.count() > 0) { m.set_sum(nd_u32("sum", 0, CMAX)); m.set_log_prod(nd_float("log_prod", 0, 1e6f)); } else { m.set_sum(0); m.set_log_prod(0); }
        g.protobuf_load(m); }
    static Value value(const Shared &) { return nd_u32("v", 0, VMAX); }
    static int count(const Group & g) { MG m; g.protobuf_dump(m); return m.count(); }
    static void same(const Group & a, const Group & b, const char * l) { MG x, y; a.protobuf_dump(x); b.protobuf_dump(y);
        v_eqi(x.count(), y.count(), l); v_eqi(x.sum(), y.sum(), l); v_close(x.log_prod(), y.log_prod(), l); }
    static void contains(const Shared &, const Group & g, Value v) { MG m; g.protobuf_dump(m); v_assume(m.count() > 1 && m.sum() >= v); }
};
struct NICH {
    typedef NormalInverseChiSq Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef MNICHShared MS; typedef MNICHGroup MG;
    static void shared(Shared & s, rng_t &) { MS m; m.set_mu(nd_float("mu", -100, 100)); m.set_kappa(nd_float("kappa", 1.f/1024, 1024)); m.set_sigmasq(nd_float("sigmasq", 1.f/1024, 1024)); m.set_nu(nd_float("nu", 1.f/1024, 1024)); s.protobuf_load(m); }
    static void vary(Shared & s) { switch (nd_choice("which", 4)) { case 0: s.mu = nd_float("mu", -100, 100); break; case 1: s.kappa = nd_float("kappa", 1.f/1024, 1024); break; case 2: s.nu = nd_float("nu", 1.f/1024, 1024); break; default: s.sigmasq = nd_float("sigmasq", 1.f/1024, 1024); } }
    static void group(const Shared & s, Group & g, rng_t & rng) { g.init(s, rng); MG m; m.set_count(nd_u32("count", 0, CMAX));
        m.set_mean(0); m.set_count_times_variance(0);
        if (m.count() > 0) m.set_mean(nd_float("mean", -100, 100));
        if (m.count() > 1) m.set_count_times_variance(nd_float("ctv", 0, 1000));
        g.protobuf_load(m); }
    static Value value(const Shared &) { return nd_float("v", -100, 100); }
    static int count(const Group & g) { MG m; g.protobuf_dump(m); return m.count(); }
    static void same(const Group & a, const Group & b, const char * l) { MG x, y; a.protobuf_dump(x); b.protobuf_dump(y);
        v_eqi(x.count(), y.count(), l); v_close(x.mean(), y.mean(), l); v_close(x.count_times_variance(), y.count_times_variance(), l); }
    static void contains(const Shared &, const Group & g, Value) { MG m; g.protobuf_dump(m); v_assume(m.count() > 2); }
};
#ifndef DD_DIM
#define DD_DIM 3
#endif
#ifndef DD_MAX
#define DD_MAX 4
#endif
struct DD {
    typedef DirichletDiscrete<DD_MAX> Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef MDDShared MS; typedef MDDGroup MG;
    static void shared(Shared & s, rng_t &) { MS m; for (int i = 0; i < DD_DIM; ++i) m.add_alphas(nd_float("alpha", 1.f/1024, 1024)); s.protobuf_load(m); }
    static void vary(Shared & s) { int i = nd_choice("which", DD_DIM); s.alphas[i] = nd_float("alpha", 1.f/1024, 1024); }
    static void group(const Shared & s, Group & g, rng_t & rng) { g.init(s, rng); MG m; for (int i = 0; i < DD_DIM; ++i) m.add_counts(nd_int("count", 0, CMAX)); g.protobuf_load(m); }
    static Value value(const Shared &) { return nd_choice("v", DD_DIM); }
    static int count(const Group & g) { MG m; g.protobuf_dump(m); int n = 0; for (int i = 0; i < m.counts_size(); ++i) n += m.counts(i); return n; }
    static void same(const Group & a, const Group & b, const char * l) { MG x, y; a.protobuf_dump(x); b.protobuf_dump(y);
        v_eqi(x.counts_size(), y.counts_size(), l);
        for (int i = 0; i < x.counts_size(); ++i) v_eqi(x.counts(i), y.counts(i), l);
        v_eqi(a.count_sum, b.count_sum, l); }
    static void contains(const Shared &, const Group & g, Value v) { MG m; g.protobuf_dump(m); v_assume(m.counts(v) > 0); }
};
#ifndef DPD_DIM
#define DPD_DIM 3
#endif
static const uint32_t dpd_keys[4] = {7u, 0u, 4000000000u, 21u};
struct DPD {
    typedef DirichletProcessDiscrete Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef MDPDShared MS; typedef MDPDGroup MG;
    static void shared(Shared & s, rng_t &) {
        MS m; m.set_gamma(nd_float("gamma", 1.f/1024, 1024)); m.set_alpha(nd_float("alpha", 1.f/1024, 1024));
        float sum = 0;
        for (int i = 0; i < DPD_DIM; ++i) {
            float b = nd_float("beta", 1.f/1024, 1.f);
            sum += b; m.add_values(dpd_keys[i]); m.add_betas(b); m.add_counts(nd_int("scount", 1, CMAX));
        }
        v_assume(sum < 0.999f);
        s.protobuf_load(m);
    }
    static void vary(Shared & s) { s.alpha = nd_float("alpha", 1.f/1024, 1024); }
    static void group(const Shared & s, Group & g, rng_t & rng) {
        g.init(s, rng); MG m;
        for (int i = 0; i < DPD_DIM; ++i) { int n = nd_int("count", 0, CMAX); if (n > 0) { m.mutable_keys()->Add(dpd_keys[i]); m.mutable_values()->Add(n); } }
        g.protobuf_load(m);
    }
    static Value value(const Shared &) { return dpd_keys[nd_choice("v", DPD_DIM)]; }
    static int count(const Group & g) { MG m; g.protobuf_dump(m); int n = 0; for (int i = 0; i < m.values_size(); ++i) n += (int)m.values(i); return n; }
    static int at(const Group & g, uint32_t k) { MG m; g.protobuf_dump(m); for (int i = 0; i < m.keys_size(); ++i) if (m.keys(i) == k) return (int)m.values(i); return 0; }
    static void same(const Group & a, const Group & b, const char * l) { MG x, y; a.protobuf_dump(x); b.protobuf_dump(y);
        v_eqi(x.keys_size(), y.keys_size(), l);
        for (int i = 0; i < x.keys_size(); ++i) v_eqi((int)x.values(i), at(b, x.keys(i)), l);
        v_eqi(a.counts.get_total(), b.counts.get_total(), l); }
    static void contains(const Shared &, const Group & g, Value v) { v_assume(at(g, v) > 0); }
};
#else
#ifndef NIW_FIX          // template parameter (-1: dynamic size)
#define NIW_FIX 2
#endif
#ifndef NIW_N            // actual dimension
#define NIW_N NIW_FIX
#endif
namespace distributions { template struct NormalInverseWishart<NIW_FIX>; }
struct NIW {
    typedef NormalInverseWishart<NIW_FIX> Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef MNIWShared MS; typedef MNIWGroup MG;
    static void shared(Shared & s, rng_t &) {
        s.mu.resize(NIW_N); s.psi.resize(NIW_N, NIW_N);
        for (int i = 0; i < NIW_N; ++i) s.mu(i) = nd_float("mu", -10, 10);
        s.kappa = nd_float("kappa", 1.f/64, 64); s.nu = nd_float("nu", NIW_N - 0.75f, 64);
        // psi = L L' + d I, so positive definite
        float a = nd_float("l00", 0.25f, 4); s.psi(0, 0) = a * a;
        if (NIW_N > 1) { float b = nd_float("l10", -4, 4), c = nd_float("l11", 0.25f, 4);
            s.psi(0, 1) = s.psi(1, 0) = a * b; s.psi(1, 1) = b * b + c * c; }
    }
    static void vary(Shared & s) { if (nd_choice("which", 2)) s.kappa = nd_float("kappa", 1.f/64, 64); else s.mu(0) = nd_float("mu", -10, 10); }
    static void group(const Shared & s, Group & g, rng_t & rng) {
        g.init(s, rng);
        // count, mean, scatter (positive semidefinite)
        g.count = nd_int("count", 0, 1000);
        if (g.count > 0) {
            float n = g.count;
            float m0 = nd_float("m0", -10, 10), a = nd_float("c00", 0, 4);
            g.sum_x(0) = n * m0; g.sum_xxT(0, 0) = n * m0 * m0 + a * a;
            if (NIW_N > 1) {
                float m1 = nd_float("m1", -10, 10), b = nd_float("c10", -4, 4), c = nd_float("c11", 0, 4);
                g.sum_x(1) = n * m1; g.sum_xxT(0, 1) = g.sum_xxT(1, 0) = n * m0 * m1 + a * b;
                g.sum_xxT(1, 1) = n * m1 * m1 + b * b + c * c;
            }
        }
    }
    static Value value(const Shared &) { Value v; v.resize(NIW_N); for (int i = 0; i < NIW_N; ++i) v(i) = nd_float("v", -10, 10); return v; }
    static int count(const Group & g) { return g.count; }
    static void same(const Group & a, const Group & b, const char * l) {
        v_eqi(a.count, b.count, l);
        for (int i = 0; i < NIW_N; ++i) { v_close(a.sum_x(i), b.sum_x(i), l);
            for (int j = 0; j < NIW_N; ++j) v_close(a.sum_xxT(i, j), b.sum_xxT(i, j), l); } }
    static void contains(const Shared &, const Group & g, const Value &) { v_assume(g.count > 2); }
};
#endif
