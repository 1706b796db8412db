// C23: values are drawn with the conjugate posterior's parameters; C22: who draws random numbers. One model per build.
#include "models.h"
typedef MODEL M;
typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
#define PARAM "drawn with the posterior's parameters"
#define KIND "draws from the named distribution"
static int at_ = 0;
static VDraw & draw(int kind) {
    while (at_ < v_ndraws && v_draws[at_].kind != kind) ++at_;
    v_check(at_ < v_ndraws, KIND);
    if (at_ >= v_ndraws) v_stop();
    return v_draws[at_++];
}
static int drawn(int kind) { int n = 0; for (int i = 0; i < v_ndraws; ++i) n += v_draws[i].kind == kind; return n; }
// inverse of the cumulative distribution of the weights at u
static void inverse(const double * w, size_t n, double u, size_t a) {
    v_check(a < n, "returns a value in the support");
    if (a >= n) v_stop();
    double below = 0, sum = 0;
    for (size_t i = 0; i < n; ++i) { if (i < a) below += w[i]; sum += w[i]; }
    v_le(below, u * sum, "the value has its drawn probability");
    v_le(u * sum, below + w[a], "the value has its drawn probability");
}
static void posterior(const Shared & s, const Group & g, const Value & v);
#ifdef M_NIW
static void posterior(const Shared & s, const Group & g, const Value & v) {
    const double n = g.count, kappa = s.kappa + n, nu = s.nu + n;
    if (NIW_N == 1) {
        double mu = (s.kappa * (double)s.mu(0) + g.sum_x(0)) / kappa;
        double psi = (double)s.psi(0, 0) + g.sum_xxT(0, 0) + s.kappa * (double)s.mu(0) * s.mu(0) - kappa * mu * mu;
        VDraw c = draw(std::V_CHI2), a = draw(std::V_NORMAL), b = draw(std::V_NORMAL);
        v_eqi(v_ndraws, 3, "three draws");
        v_closed(c.p1, nu, PARAM);
        // value - mu = sqrt(psi / chisq) (z1 / sqrt(kappa) + z2)
        double d = v(0) - mu, z = a.z / std::sqrt(kappa) + b.z;
        v_closed(d, std::sqrt(psi / c.value) * z, "value drawn around the posterior mean with the posterior's variance");
        return;
    }
    VDraw c0 = draw(std::V_CHI2), c1 = draw(std::V_CHI2);
    v_closed(c0.p1, nu, PARAM); v_closed(c1.p1, nu - 1, PARAM);
    v_eqi(drawn(std::V_NORMAL), 1 + 2 + 2, "five normal draws"); v_eqi(v_ndraws, 7, "seven draws");
}
#else
template<class S, class G> static void post_bb(const S & s, const G & g, int v) {
    VDraw a = draw(std::V_GAMMA), b = draw(std::V_GAMMA), u = draw(std::V_UNIF);
    v_eqi(v_ndraws, 3, "three draws");
    v_closed(a.p1, (double)s.alpha + g.heads, PARAM); v_closed(b.p1, (double)s.beta + g.tails, PARAM); v_closed(a.p2, b.p2, PARAM);
    double h = a.value, t = b.value;
    v_check(v ? u.value * (h + t) <= h : u.value * (h + t) >= h, "the value has its drawn probability");
}
static void posterior_(const BB::Shared & s, const BB::Group & g, bool v) { post_bb(s, g, v); }
static void posterior_(const BNB::Shared & s, const BNB::Group & g, uint32_t v) {
    VDraw a = draw(std::V_GAMMA), b = draw(std::V_GAMMA), k = draw(std::V_NEGBIN);
    v_eqi(v_ndraws, 3, "three draws");
    v_closed(a.p1, (double)s.alpha + (double)s.r * g.count, PARAM); v_closed(b.p1, (double)s.beta + g.sum, PARAM); v_closed(a.p2, b.p2, PARAM);
    v_closed(k.p1, s.r, PARAM); v_closed(k.p2 * (a.value + b.value), a.value, "the drawn probability");
    v_closed(v, k.value, "returns the draw");
}
static void posterior_(const GP::Shared & s, const GP::Group & g, uint32_t v) {
    VDraw a = draw(std::V_GAMMA), k = draw(std::V_POISSON);
    v_eqi(v_ndraws, 2, "two draws");
    v_closed(a.p1, (double)s.alpha + g.sum, PARAM); v_closed(k.p1 * ((double)s.inv_beta + g.count), a.value / a.p2 , "the drawn mean");
    v_closed(v, k.value, "returns the draw");
}
static void posterior_(const NICH::Shared & s, const NICH::Group & g, float v) {
    const double n = g.count, kappa = s.kappa + n, nu = s.nu + n, d = (double)s.mu - g.mean;
    VDraw c = draw(std::V_CHI2), a = draw(std::V_NORMAL), b = draw(std::V_NORMAL);
    v_eqi(v_ndraws, 3, "three draws");
    v_closed(c.p1, nu, PARAM);
    double nss = (double)s.nu * s.sigmasq + g.count_times_variance + n * s.kappa * d * d / kappa;   // nu' sigma'^2
    double mu = (s.kappa * (double)s.mu + n * g.mean) / kappa;
    v_closed(v, mu + std::sqrt(nss / c.value) * (a.z / std::sqrt(kappa) + b.z), "value drawn around the posterior mean with the posterior's variance");
}
static void posterior_(const DD::Shared & s, const DD::Group & g, int v) {
    double w[DD_DIM];
    v_check(v >= 0 && v < s.dim, "returns a value in the support");
    for (int i = 0; i < DD_DIM; ++i) { VDraw a = draw(std::V_GAMMA); v_closed(a.p1, (double)s.alphas[i] + g.counts[i], PARAM); v_closed(a.p2, 1, PARAM); w[i] = a.value; }
    VDraw u = draw(std::V_UNIF);
    v_eqi(v_ndraws, DD_DIM + 1, "one draw per value and one for the choice");
    inverse(w, DD_DIM, u.value, v);
}
static void posterior_(const DPD::Shared & s, const DPD::Group & g, uint32_t v) {
    DPD::Model::Sampler p;
    rng_t rng; v_rng_rewind();
    p.init(s, g, rng);
    int n = v_ndraws;
    v_eqi(n, DPD_DIM + (s.beta0 > 0), "one draw per stick");
    v_eqi(p.values.size(), n, "one weight per stick"); v_eqi(p.probs.size(), n, "one weight per stick");
    if (n != (int)p.values.size() || n != (int)p.probs.size() || n > DPD_DIM + 1) v_stop();
    bool seen[DPD_DIM + 1]; for (int k = 0; k <= DPD_DIM; ++k) seen[k] = false;
    double w[DPD_DIM + 1]; size_t a = n;
    for (int i = 0; i < n; ++i) {
        uint32_t x = p.values[i];
        bool other = x == 0xFFFFFFFFu;
        v_check(other || s.betas.contains(x), "returns a value in the support");
        v_check(v_draws[i].kind == std::V_GAMMA, KIND);
        v_closed(v_draws[i].p1, other ? (double)s.alpha * s.beta0 : (double)s.alpha * s.betas.get(x) + g.counts.get_count(x), PARAM);
        v_closed(v_draws[i].p2, 1, PARAM);
        int k = DPD_DIM; for (int j = 0; j < DPD_DIM; ++j) if (x == dpd_keys[j]) k = j;
        v_check(!seen[k], "every value once"); seen[k] = true;
        w[i] = v_draws[i].value;
        if (x == v) a = i;
    }
    VDraw u = v_draws[n];
    v_check(u.kind == std::V_UNIF, KIND);
    inverse(w, n, u.value, a);
}
static void posterior(const Shared & s, const Group & g, const Value & v) { posterior_(s, g, v); }
#endif
ENTRY(sample) {
    rng_t rng; v_rng_allow();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    Value v = g.sample_value(s, rng);
    posterior(s, g, v);
}
ENTRY(sample_empty) {
    rng_t rng; v_rng_allow();
    Shared s; M::shared(s, rng);
    Group g; g.init(s, rng);
    Value v = g.sample_value(s, rng);
    posterior(s, g, v);
}
// a sampler object draws the parameters once and then values from them
ENTRY(sampler_reuse) {
    rng_t rng; v_rng_allow();
    Shared s; M::shared(s, rng);
    Group g, h; M::group(s, g, rng); M::group(s, h, rng);
    M::Model::Sampler p;
    p.init(s, h, rng);                  // whatever it was used for before
    v_ndraws = 0;
    p.init(s, g, rng);
    int n = v_ndraws;
    Value v = p.eval(s, rng);
    int m = v_ndraws;
    v_check(m > n, "every value is drawn");
    posterior(s, g, v);
}
#ifdef M_NIW
// two dimensions, from a parameter given by the Cholesky factor of its inverse
static void spd(NIW::Model::Matrix & psi, double & det) {
    psi.resize(2, 2);
    double a = nd_float("l00", 0.25f, 4), b = nd_float("l10", -4, 4), c = nd_float("l11", 0.25f, 4);   // inverse = [a 0; b c] [a b; 0 c]
    det = 1 / (a * a * c * c);
    psi(0, 0) = (b * b + c * c) * det; psi(0, 1) = psi(1, 0) = -(a * b) * det; psi(1, 1) = a * a * det;
}
ENTRY(inverse_wishart) {
    rng_t rng; v_rng_allow();
    NIW::Model::Matrix psi; double det; spd(psi, det);
    float nu = nd_float("nu", 1.25f, 64);
    NIW::Model::Matrix cov = sample_inverse_wishart(nu, psi, rng);
    VDraw c0 = draw(std::V_CHI2), c1 = draw(std::V_CHI2);
    v_closed(c0.p1, nu, PARAM); v_closed(c1.p1, (double)nu - 1, PARAM);
    v_eqi(drawn(std::V_NORMAL), 1, "one normal draw"); v_eqi(v_ndraws, 3, "three draws");
    double d = (double)cov(0, 0) * cov(1, 1) - (double)cov(0, 1) * cov(1, 0);
    v_closed(d * c0.value * c1.value, det, "determinant of the draw");
    v_closed(cov(0, 1), cov(1, 0), "the draw is symmetric");
}
ENTRY(wishart) {
    rng_t rng; v_rng_allow();
    NIW::Model::Matrix psi(2, 2);
    double a = nd_float("l00", 0.25f, 4), b = nd_float("l10", -4, 4), c = nd_float("l11", 0.25f, 4);
    psi(0, 0) = a * a; psi(0, 1) = psi(1, 0) = a * b; psi(1, 1) = b * b + c * c;
    float nu = nd_float("nu", 1.25f, 64);
    NIW::Model::Matrix w = sample_wishart(nu, psi, rng);
    VDraw c0 = draw(std::V_CHI2), c1 = draw(std::V_CHI2);
    v_closed(c0.p1, nu, PARAM); v_closed(c1.p1, (double)nu - 1, PARAM);
    at_ = 0; VDraw z = draw(std::V_NORMAL);
    v_eqi(drawn(std::V_NORMAL), 1, "one normal draw"); v_eqi(v_ndraws, 3, "three draws");
    v_closed((double)w(0, 0) * w(1, 1) - (double)w(0, 1) * w(1, 0), a * a * c * c * c0.value * c1.value, "determinant of the draw");
    v_closed(w(0, 1), w(1, 0), "the draw is symmetric");
    // c^2 (a^2 A00^2) ... trace of inverse(psi) w
    double tr = (psi(1, 1) * (double)w(0, 0) - 2 * (double)psi(0, 1) * w(0, 1) + (double)psi(0, 0) * w(1, 1)) / (a * a * c * c);
    v_closed(tr, c0.value + c1.value + z.z * z.z, "trace of the draw relative to the scale");
}
ENTRY(multivariate_normal) {
    rng_t rng; v_rng_allow();
    NIW::Model::Matrix s(2, 2); NIW::Model::Vector mu(2);
    double a = nd_float("l00", 0.25f, 4), b = nd_float("l10", -4, 4), c = nd_float("l11", 0.25f, 4);
    s(0, 0) = a * a; s(0, 1) = s(1, 0) = a * b; s(1, 1) = b * b + c * c;
    mu(0) = nd_float("mu", -10, 10); mu(1) = nd_float("mu", -10, 10);
    NIW::Model::Vector v = sample_multivariate_normal(mu, s, rng);
    VDraw x = draw(std::V_NORMAL), y = draw(std::V_NORMAL);
    v_eqi(v_ndraws, 2, "two draws");
    double d = v(0) - (double)mu(0), e = v(1) - (double)mu(1);
    // squared Mahalanobis distance is the squared length of the standard normal draws
    v_closed((s(1, 1) * d * d - 2 * (double)s(0, 1) * d * e + s(0, 0) * e * e), a * a * c * c * (x.z * x.z + y.z * y.z), "drawn with the given mean and covariance");
}
ENTRY(normal_inverse_wishart) {
    rng_t rng; v_rng_allow();
    NIW::Model::Matrix psi; double det; spd(psi, det);
    NIW::Model::Vector mu(2); mu(0) = nd_float("mu", -10, 10); mu(1) = nd_float("mu", -10, 10);
    float nu = nd_float("nu", 1.25f, 64), kappa = nd_float("kappa", 0.0625f, 64);
    std::pair<NIW::Model::Vector, NIW::Model::Matrix> p = sample_normal_inverse_wishart(mu, kappa, psi, nu, rng);
    VDraw c0 = draw(std::V_CHI2), c1 = draw(std::V_CHI2);
    v_closed(c0.p1, nu, PARAM); v_closed(c1.p1, (double)nu - 1, PARAM);
    v_eqi(v_ndraws, 5, "five draws");
    VDraw x = v_draws[3], y = v_draws[4];
    double s00 = p.second(0, 0), s01 = p.second(0, 1), s11 = p.second(1, 1), d = p.first(0) - (double)mu(0), e = p.first(1) - (double)mu(1);
    double dd = s00 * s11 - s01 * s01;
    v_closed(dd * c0.value * c1.value, det, "covariance drawn from the inverse Wishart");
    v_closed(kappa * (s11 * d * d - 2 * s01 * d * e + s00 * e * e), dd * (x.z * x.z + y.z * y.z), "mean drawn with the covariance over kappa");
}
#endif
// C22
static void unchanged() { v_eqi(v_ndraws, 0, "draws no random number"); }
ENTRY(quiet_group) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g, h; M::group(s, g, rng); M::group(s, h, rng);
    Value v = M::value(s), w = M::value(s);
    g.add_value(s, v, rng); g.add_repeated_value(s, w, 2, rng); g.remove_value(s, v, rng);
    unchanged();
    g.score_value(s, w, rng); g.score_data(s, rng);
    M::Model::Scorer scorer; scorer.init(s, g, rng); scorer.eval(s, v, rng);
    unchanged();
    g.merge(s, h, rng); g.validate(s);
    unchanged();
    Group e; e.init(s, rng); e.score_data(s, rng); e.merge(s, g, rng);
    unchanged();
}
template<class Mix> static void quiet_mixture() {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Mix mix; mix.groups().resize(2);
    M::group(s, mix.groups(0), rng); M::group(s, mix.groups(1), rng);
    mix.init(s, rng);
    Value v = M::value(s);
    int g = nd_choice("g", 2);
    mix.add_value(s, g, v, rng);
    mix.add_group(s, rng);
    unchanged();
    VectorFloat acc(3); mix.score_value(s, v, acc, rng); mix.score_value_group(s, g, v, rng);
    unchanged();
    mix.remove_value(s, g, v, rng);
    mix.score_data(s, rng);
    std::vector<Shared> grid(2, s); VectorFloat out(2); mix.score_data_grid(grid, out, rng);
    mix.remove_group(s, g);
    mix.validate(s);
    unchanged();
}
#ifdef M_NIW
ENTRY(quiet_mixture) { quiet_mixture<MixtureSlave<M::Model>>(); }
#else
ENTRY(quiet_mixture) { quiet_mixture<M::Model::FastMixture>(); }
ENTRY(quiet_small_mixture) { quiet_mixture<M::Model::SmallMixture>(); }
#endif
// the same draws give the same value and are as many
static bool equal(float a, float b) { return a == b; }
#ifdef M_NIW
static bool equal(const Value & a, const Value & b) { for (int i = 0; i < NIW_N; ++i) if (a(i) != b(i)) return false; return true; }
#endif
ENTRY(repeatable) {
    rng_t rng; v_rng_allow();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    Value v = g.sample_value(s, rng);
    int n = v_ndraws;
    v_check(n > 0, "sampling draws");
    v_rng_rewind();
    Value w = g.sample_value(s, rng);
    v_eqi(v_ndraws, n, "as many draws every time");
    v_check(equal(v, w), "the same draws give the same value");
}
