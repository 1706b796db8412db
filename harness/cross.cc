// C20: the C++ half.  One symbolic group per model; statistics and scores are exported, the Python
// half (pycross.py) loads the same group into another flavour and compares.
#include "models.h"
typedef MODEL M;
typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
template<class T> struct X {};
#define XR(N) v_export_r(p, #N, -1, m.N());
#define XI(N) v_export_i(p, #N, -1, m.N());
#define XRS(N) v_export_i(p, "n_" #N, -1, m.N##_size()); for (int i = 0; i < m.N##_size(); ++i) v_export_r(p, #N, i, m.N(i));
#define XIS(N) v_export_i(p, "n_" #N, -1, m.N##_size()); for (int i = 0; i < m.N##_size(); ++i) v_export_i(p, #N, i, m.N(i));
#define XFORM(T, SH, GR, VAL) template<> struct X<T> { \
    static void shared(const T::Shared & s) { const char * p = ""; T::MS m; s.protobuf_dump(m); SH } \
    static void group(const char * p, const T::Group & g) { T::MG m; g.protobuf_dump(m); GR } \
    static void value(const char * p, const T::Value & v) { VAL } };
#define VI v_export_i(p, "", -1, v);
#define VR v_export_r(p, "", -1, v);
#ifndef M_NIW
XFORM(BB, XR(alpha) XR(beta), XI(heads) XI(tails), VI)
XFORM(BNB, XR(alpha) XR(beta) XI(r), XI(count) XI(sum), VI)
XFORM(GP, XR(alpha) XR(inv_beta), XI(count) XI(sum) XR(log_prod), VI)
XFORM(NICH, XR(mu) XR(kappa) XR(sigmasq) XR(nu), XI(count) XR(mean) XR(count_times_variance), VR)
XFORM(DD, XRS(alphas), XIS(counts), VI)
XFORM(DPD, XR(gamma) XR(alpha) XIS(values) XRS(betas) XIS(counts), XIS(keys) XIS(values), VI)
#else
template<> struct X<NIW> {
    static void shared(const Shared & s) { const char * p = ""; MNIWShared m; s.protobuf_dump(m); XRS(mu) XR(kappa) XRS(psi) XR(nu) }
    static void group(const char * p, const Group & g) { MNIWGroup m; g.protobuf_dump(m); XI(count) XRS(sum_x) XRS(sum_xxt) }
    static void value(const char * p, const Value & v) { for (int i = 0; i < NIW_N; ++i) v_export_r(p, "", i, v(i)); } };
#endif

ENTRY(scores) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    Value v = M::value(s);
    X<M>::shared(s); X<M>::group("g.", g); X<M>::value("v", v);
    v_export_r("", "score_value", -1, g.score_value(s, v, rng));
    v_export_r("", "score_data", -1, g.score_data(s, rng));
}
// every kind of change to a group
ENTRY(stats) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    Value v = M::value(s);
    X<M>::shared(s); X<M>::group("g.", g); X<M>::value("v", v);
    Group h; h.init(s, rng); X<M>::group("init.", h);
    h = g; h.add_value(s, v, rng); X<M>::group("add.", h);
    h = g; int n = nd_int("n", 1, 1000); v_export_i("", "n", -1, n);
    h.add_repeated_value(s, v, n, rng); X<M>::group("rep.", h);
}
ENTRY(remove) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    Value v = M::value(s); M::contains(s, g, v);
    X<M>::shared(s); X<M>::group("g.", g); X<M>::value("v", v);
    g.remove_value(s, v, rng); X<M>::group("rem.", g);
}
ENTRY(merge) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g, h; M::group(s, g, rng); M::group(s, h, rng);
    X<M>::shared(s); X<M>::group("g.", g); X<M>::group("h.", h);
    g.merge(s, h, rng); X<M>::group("merge.", g);
}
