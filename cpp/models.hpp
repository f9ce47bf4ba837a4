// Adapters: generators and reference statistics/scores for each component model.
#pragma once
#include "engine.hpp"
#include "oracle.hpp"
#include <distributions/common.hpp>
#include <distributions/special.hpp>
#include <distributions/random.hpp>
#include <distributions/vector.hpp>
#include <distributions/vector_math.hpp>
#include <distributions/mixture.hpp>
#include <distributions/models/bb.hpp>
#include <distributions/models/bnb.hpp>
#include <distributions/models/dd.hpp>
#include <distributions/models/dpd.hpp>
#include <distributions/models/gp.hpp>
#include <distributions/models/nich.hpp>
#if PART >= 2
#include <distributions/models/niw.hpp>
#endif
#include <distributions/io/schema.pb.h>

namespace pb = protobuf::distributions;
using distributions::rng_t;
using eng::Src;
using orc::Sc;

struct Hist { double ops = 0, peak = 0, rep = 1; };  // length of the history, largest magnitude seen, largest repetition of one call beyond ops

template<class M> struct Ad;

// The bound 1e300 marks "no meaningful reference" (ill-conditioned cases): not compared.
#define REQ_SC(actual, ref, expr) do { double a__ = (actual); ::orc::Sc r__ = (ref); \
    if (r__.tol < 1e200 && !r__.accepts(a__)) { std::ostringstream m__; m__ << __func__ << ": " #actual " = " << ::eng::fmt(a__) \
    << ", reference " << ::eng::fmt(r__.v) << " (tolerance " << ::eng::fmt(r__.width()) << "); " << expr; ::eng::fail(m__.str()); } } while (0)

// ------------------------------------------------------------------ BB
template<> struct Ad<distributions::BetaBernoulli> {
    typedef distributions::BetaBernoulli M;
    typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
    typedef pb::BetaBernoulli_Shared SharedPb; typedef pb::BetaBernoulli_Group GroupPb;
    static const char * name() { return "bb"; }
    static constexpr bool discrete = true;
    Shared shared;
    Ad(Src & s, rng_t &) { shared.alpha = s.f(0.01, 1000); shared.beta = s.f(0.01, 1000);
        NOTE(s, "bb alpha=" << shared.alpha << " beta=" << shared.beta << "; "); }
    Shared other_shared(Src & s) const { Shared r; r.alpha = s.f(0.01, 1000); r.beta = s.f(0.01, 1000); return r; }
    Value value(Src & s) const { return s.boolean(); }
    static std::string show(const Value & v) { return v ? "1" : "0"; }
    static double mag(const Value &) { return 1; }
    static orc::BB ref(const Shared & s) { return orc::BB{s.alpha, s.beta}; }
    static void count(const std::vector<Value> & xs, double & h, double & t) { h = t = 0; for (bool x : xs) (x ? h : t) += 1; }
    void check_stats(const Group & g, const std::vector<Value> & xs, const Hist &) const {
        GroupPb m; g.protobuf_dump(m);
        double h, t; count(xs, h, t);
        REQ_EQ(static_cast<double>(m.heads()), h, "bb heads"); REQ_EQ(static_cast<double>(m.tails()), t, "bb tails");
    }
    static Sc score_value(const Shared & s, const std::vector<Value> & xs, const Hist &, const Value & v) {
        double h, t; count(xs, h, t); return orc::bb_value(ref(s), h, t, v); }
    static Sc score_data(const Shared & s, const std::vector<Value> & xs, const Hist &) {
        double h, t; count(xs, h, t); return orc::bb_data(ref(s), h, t); }
    // support for normalisation: enumerates values, returns an upper bound of the probability left out
    std::vector<Value> support(const std::vector<Value> &, double & rest) const { rest = 0; return {false, true}; }
};

// ------------------------------------------------------------------ BNB
template<> struct Ad<distributions::BetaNegativeBinomial> {
    typedef distributions::BetaNegativeBinomial M;
    typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
    typedef pb::BetaNegativeBinomial_Shared SharedPb; typedef pb::BetaNegativeBinomial_Group GroupPb;
    static const char * name() { return "bnb"; }
    static constexpr bool discrete = true;
    Shared shared; int64_t cap;
    Ad(Src & s, rng_t &) { shared.alpha = s.f(0.05, 500); shared.beta = s.f(0.05, 500); shared.r = s.small(1, 40);
        cap = s.weighted({6, 2, 1}) ; cap = cap == 0 ? 20 : cap == 1 ? 300 : 100000;
        NOTE(s, "bnb alpha=" << shared.alpha << " beta=" << shared.beta << " r=" << shared.r << "; "); }
    Shared other_shared(Src & s) const { Shared r; r.alpha = s.f(0.05, 500); r.beta = s.f(0.05, 500); r.r = s.small(1, 40); return r; }
    Value value(Src & s) const { return s.small(0, cap); }
    static std::string show(const Value & v) { return std::to_string(v); }
    static double mag(const Value & v) { return v; }
    static orc::BNB ref(const Shared & s) { return orc::BNB{s.alpha, s.beta, static_cast<double>(s.r)}; }
    static double sum(const std::vector<Value> & xs) { double r = 0; for (auto x : xs) r += x; return r; }
    void check_stats(const Group & g, const std::vector<Value> & xs, const Hist &) const {
        GroupPb m; g.protobuf_dump(m);
        REQ_EQ(static_cast<double>(m.count()), static_cast<double>(xs.size()), "bnb count");
        REQ_EQ(static_cast<double>(m.sum()), sum(xs), "bnb sum");
    }
    static Sc score_value(const Shared & s, const std::vector<Value> & xs, const Hist &, const Value & v) {
        return orc::bnb_value(ref(s), xs.size(), sum(xs), v); }
    static Sc score_data(const Shared & s, const std::vector<Value> & xs, const Hist &) {
        return orc::bnb_data(ref(s), xs.size(), sum(xs)); }
    // the library's scores leave out the binomial coefficient (KNOWN_FINDINGS: bnb-binomial-coefficient)
    static double omitted(const Shared & s, const Value & v) { return orc::log_binom_coeff(s.r, v); }
};

// ------------------------------------------------------------------ GP
template<> struct Ad<distributions::GammaPoisson> {
    typedef distributions::GammaPoisson M;
    typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
    typedef pb::GammaPoisson_Shared SharedPb; typedef pb::GammaPoisson_Group GroupPb;
    static const char * name() { return "gp"; }
    static constexpr bool discrete = true;
    Shared shared; int64_t cap;
    Ad(Src & s, rng_t &) { shared.alpha = s.f(0.05, 500); shared.inv_beta = s.f(0.02, 100);
        cap = s.weighted({6, 2, 1}) ; cap = cap == 0 ? 20 : cap == 1 ? 300 : 100000;
        NOTE(s, "gp alpha=" << shared.alpha << " inv_beta=" << shared.inv_beta << "; "); }
    Shared other_shared(Src & s) const { Shared r; r.alpha = s.f(0.05, 500); r.inv_beta = s.f(0.02, 100); return r; }
    Value value(Src & s) const { return s.small(0, cap); }
    static std::string show(const Value & v) { return std::to_string(v); }
    static double mag(const Value & v) { return orc::lgam(v + 1.0) + 1; }
    static orc::GP ref(const Shared & s) { return orc::GP{s.alpha, s.inv_beta}; }
    static double sum(const std::vector<Value> & xs) { double r = 0; for (auto x : xs) r += x; return r; }
    static double log_prod(const std::vector<Value> & xs) { double r = 0; for (auto x : xs) r += orc::lgam(x + 1.0); return r; }
    static double lp_tol(const std::vector<Value> & xs, const Hist & h) {
        double r = 1e-6;
        for (auto x : xs) r += orc::err_lgamma(x + 1.0, 0) + 2e-7 * (1 + orc::lgam(x + 1.0));
        return r + 1.3e-7 * h.peak * (1 + h.ops) * (1 + h.ops) * h.rep;
    }
    void check_stats(const Group & g, const std::vector<Value> & xs, const Hist & h) const {
        GroupPb m; g.protobuf_dump(m);
        REQ_EQ(static_cast<double>(m.count()), static_cast<double>(xs.size()), "gp count");
        REQ_EQ(static_cast<double>(m.sum()), sum(xs), "gp sum");
        REQ_NEAR(m.log_prod(), log_prod(xs), lp_tol(xs, h), "gp log_prod");
    }
    static Sc score_value(const Shared & s, const std::vector<Value> & xs, const Hist &, const Value & v) {
        return orc::gp_value(ref(s), xs.size(), sum(xs), v); }
    static Sc score_data(const Shared & s, const std::vector<Value> & xs, const Hist & h) {
        return orc::gp_data(ref(s), xs.size(), sum(xs), log_prod(xs), lp_tol(xs, h)); }
};

// ------------------------------------------------------------------ DD
template<int max_dim> struct Ad<distributions::DirichletDiscrete<max_dim>> {
    typedef distributions::DirichletDiscrete<max_dim> M;
    typedef typename M::Shared Shared; typedef typename M::Group Group; typedef typename M::Value Value;
    typedef pb::DirichletDiscrete_Shared SharedPb; typedef pb::DirichletDiscrete_Group GroupPb;
    static const char * name() { return "dd"; }
    static constexpr bool discrete = true;
    Shared shared;
    Ad(Src & s, rng_t &) {
        shared.dim = s.small(1, max_dim);
        if (s.boolean(1, 12)) shared.dim = max_dim;
        fill(s, shared);
        NOTE(s, "dd dim=" << shared.dim << " alphas=["; for (int i = 0; i < shared.dim && i < 8; ++i) s.log << shared.alphas[i] << " "; s.log << "]; ");
    }
    static void fill(Src & s, Shared & r) {
        if (r.dim > 20) { float a = s.f(0.02, 50), b = s.f(0.02, 50); for (int i = 0; i < r.dim; ++i) r.alphas[i] = i % 3 ? a : b; }
        else for (int i = 0; i < r.dim; ++i) r.alphas[i] = s.f(0.02, 50);
    }
    Shared other_shared(Src & s) const { Shared r; r.dim = shared.dim; fill(s, r); return r; }
    Value value(Src & s) const { return s.integer(0, shared.dim - 1); }
    static std::string show(const Value & v) { return std::to_string(v); }
    static double mag(const Value &) { return 1; }
    static double asum(const Shared & s) { double r = 0; for (int i = 0; i < s.dim; ++i) r += s.alphas[i]; return r; }
    static std::vector<double> counts(const Shared & s, const std::vector<Value> & xs) {
        std::vector<double> c(s.dim, 0); for (auto x : xs) c[x] += 1; return c; }
    void check_stats(const Group & g, const std::vector<Value> & xs, const Hist &) const {
        GroupPb m; g.protobuf_dump(m);
        REQ_EQ(m.counts_size(), shared.dim, "dd dim");
        auto c = counts(shared, xs);
        for (int i = 0; i < shared.dim; ++i) REQ_EQ(static_cast<double>(m.counts(i)), c[i], "dd counts[" << i << "]");
    }
    static Sc score_value(const Shared & s, const std::vector<Value> & xs, const Hist &, const Value & v) {
        return orc::cat_value(s.alphas[v], asum(s), counts(s, xs)[v], xs.size()); }
    static Sc score_data(const Shared & s, const std::vector<Value> & xs, const Hist &) {
        std::vector<double> a(s.alphas, s.alphas + s.dim);
        return orc::cat_data(a, asum(s), counts(s, xs)); }
    std::vector<Value> support(const std::vector<Value> &, double & rest) const {
        rest = 0; std::vector<Value> r; for (int i = 0; i < shared.dim; ++i) r.push_back(i); return r; }
};

// ------------------------------------------------------------------ DPD
template<> struct Ad<distributions::DirichletProcessDiscrete> {
    typedef distributions::DirichletProcessDiscrete M;
    typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
    typedef pb::DirichletProcessDiscrete_Shared SharedPb; typedef pb::DirichletProcessDiscrete_Group GroupPb;
    static const char * name() { return "dpd"; }
    static constexpr bool discrete = true;
    Shared shared;
    std::vector<Value> keys;
    static Value key(Src & s) {
        switch (s.weighted({6, 2, 1, 1})) {
            case 0: return s.integer(0, 12);
            case 1: return s.integer(0, 300);
            case 2: return static_cast<Value>(s.integer(0, 12)) << 16;
            default: return 0xFFFFFFFEU - s.integer(0, 5);
        }
    }
    Ad(Src & s, rng_t & rng) {
        shared.gamma = s.f(0.1, 50); shared.alpha = s.f(0.05, 100); shared.beta0 = 1;
        shared.betas.clear(); shared.counts.clear();
        int n = 1 + s.length(0, 12);
        for (int i = 0; i < n; ++i) { Value v = key(s); shared.add_value(v, rng); if (std::find(keys.begin(), keys.end(), v) == keys.end()) keys.push_back(v); }
        NOTE(s, "dpd gamma=" << shared.gamma << " alpha=" << shared.alpha << " keys=" << keys.size() << " beta0=" << shared.beta0 << "; ");
    }
    Shared other_shared(Src & s) const {  // same values, other hyperparameters and weights
        Shared r = shared; r.alpha = s.f(0.05, 100); r.gamma = s.f(0.1, 50);
        if (s.boolean()) { double w = s.real(0.3, 1); for (auto k : keys) r.betas.get(k) *= w; }
        return r;
    }
    Value value(Src & s) const { return keys[s.index(keys.size())]; }
    static std::string show(const Value & v) { return std::to_string(v); }
    static double mag(const Value &) { return 1; }
    static double count(const std::vector<Value> & xs, Value v) { return std::count(xs.begin(), xs.end(), v); }
    void check_stats(const Group & g, const std::vector<Value> & xs, const Hist &) const {
        GroupPb m; g.protobuf_dump(m);
        REQ_EQ(m.keys_size(), m.values_size(), "dpd");
        std::map<Value, double> c; for (auto x : xs) c[x] += 1;
        REQ_EQ(static_cast<size_t>(m.keys_size()), c.size(), "dpd number of distinct keys");
        for (int i = 0; i < m.keys_size(); ++i) REQ_EQ(static_cast<double>(m.values(i)), c.count(m.keys(i)) ? c[m.keys(i)] : 0.0, "dpd count of " << m.keys(i));
    }
    static Sc score_value(const Shared & s, const std::vector<Value> & xs, const Hist &, const Value & v) {
        double b = v == M::OTHER() ? s.beta0 : s.betas.get(v);
        if (b == 0 && v == M::OTHER()) return Sc(-88, 1e300);
        return orc::cat_value(double(s.alpha) * b, s.alpha, count(xs, v), xs.size()); }
    static Sc score_data(const Shared & s, const std::vector<Value> & xs, const Hist &) {
        std::vector<double> a, c;
        std::set<Value> u(xs.begin(), xs.end());
        for (auto v : u) { a.push_back(double(s.alpha) * s.betas.get(v)); c.push_back(count(xs, v)); }
        return orc::cat_data(a, s.alpha, c); }
    std::vector<Value> support(const std::vector<Value> &, double & rest) const { rest = 0; auto r = keys; r.push_back(M::OTHER()); return r; }
};

// ------------------------------------------------------------------ NICH
template<> struct Ad<distributions::NormalInverseChiSq> {
    typedef distributions::NormalInverseChiSq M;
    typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;
    typedef pb::NormalInverseChiSq_Shared SharedPb; typedef pb::NormalInverseChiSq_Group GroupPb;
    static const char * name() { return "nich"; }
    static constexpr bool discrete = false;
    Shared shared; double center, spread;
    static void fill(Src & s, Shared & r) {
        r.mu = s.boolean(1, 3) ? s.real(-50, 50) : s.integer(-3, 3); r.kappa = s.f(0.02, 100); r.sigmasq = s.f(0.01, 100); r.nu = s.f(0.1, 500); }
    Ad(Src & s, rng_t &) {
        fill(s, shared);
        double sd = orc::sqrt_(shared.sigmasq);
        center = shared.mu + sd * (s.boolean(1, 3) ? s.real(-30, 30) : 0);
        spread = sd * s.logreal(0.1, 10);
        NOTE(s, "nich mu=" << shared.mu << " kappa=" << shared.kappa << " sigmasq=" << shared.sigmasq << " nu=" << shared.nu << "; ");
    }
    Shared other_shared(Src & s) const { Shared r; fill(s, r); return r; }
    Value value(Src & s) const {
        if (s.boolean(1, 10)) return s.integer(-2, 2);
        return center + spread * s.real(-2, 2); }
    static std::string show(const Value & v) { return eng::fmt(v); }
    static double mag(const Value & v) { return std::fabs(v); }
    static orc::NICH ref(const Shared & s) { return orc::NICH{s.mu, s.kappa, s.sigmasq, s.nu}; }
    static orc::NichStats stats(const std::vector<Value> & xs, const Hist & h) {
        auto r = orc::nich_stats(std::vector<double>(xs.begin(), xs.end()), h.peak, h.ops); r.e_ctv *= h.rep; return r; }
    void check_stats(const Group & g, const std::vector<Value> & xs, const Hist & h) const {
        GroupPb m; g.protobuf_dump(m);
        auto s = stats(xs, h);
        REQ_EQ(static_cast<double>(m.count()), s.n, "nich count");
        REQ_NEAR(m.mean(), s.mean, s.e_mean + 1e-7 * std::fabs(s.mean), "nich mean");
        REQ_NEAR(m.count_times_variance(), s.ctv, s.e_ctv + 1e-6 * s.ctv, "nich count_times_variance");
        REQ(m.count_times_variance() >= 0, "nich count_times_variance is negative: " << eng::fmt(m.count_times_variance()));
    }
    static Sc score_value(const Shared & s, const std::vector<Value> & xs, const Hist & h, const Value & v) {
        return orc::nich_value(ref(s), stats(xs, h), v, distributions::fast_lgamma_nu(s.nu + xs.size())); }
    static Sc score_data(const Shared & s, const std::vector<Value> & xs, const Hist & h) {
        return orc::nich_data(ref(s), stats(xs, h)); }
};

#if PART >= 2
// ------------------------------------------------------------------ NIW
template<int dim> struct Ad<distributions::NormalInverseWishart<dim>> {
    typedef distributions::NormalInverseWishart<dim> M;
    typedef typename M::Shared Shared; typedef typename M::Group Group; typedef typename M::Value Value;
    typedef pb::NormalInverseWishart_Shared SharedPb; typedef pb::NormalInverseWishart_Group GroupPb;
    static const char * name() { return "niw"; }
    static constexpr bool discrete = false;
    Shared shared; int d; double spread;
    static void fill(Src & s, Shared & r, int d) {
        r.mu.resize(d, 1); r.psi.resize(d, d);
        for (int i = 0; i < d; ++i) r.mu(i) = s.boolean() ? 0 : s.real(-5, 5);
        std::vector<double> a(d * d);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) a[i * d + j] = j < i ? s.real(-1, 1) : 0;
        double sc = s.logreal(0.1, 10);
        for (int i = 0; i < d; ++i) a[i * d + i] = s.logreal(0.3, 3);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) {
            double t = 0; for (int k = 0; k < d; ++k) t += a[i * d + k] * a[j * d + k];
            r.psi(i, j) = sc * t;
        }
        for (int i = 0; i < d; ++i) for (int j = 0; j < i; ++j) r.psi(j, i) = r.psi(i, j);
        r.kappa = s.f(0.05, 50);
        r.nu = static_cast<float>(d - 1 + s.logreal(0.3, 30));
    }
    Ad(Src & s, rng_t &) {
        d = dim == -1 ? s.integer(1, 5) : dim;
        fill(s, shared, d);
        spread = s.logreal(0.3, 5);
        NOTE(s, "niw d=" << d << " kappa=" << shared.kappa << " nu=" << shared.nu << " mu=[" << shared.mu.transpose() << "] psi=[" << shared.psi << "]; ");
    }
    Shared other_shared(Src & s) const { Shared r; fill(s, r, d); return r; }
    Value value(Src & s) const { Value v; v.resize(d, 1); for (int i = 0; i < d; ++i) v(i) = s.boolean(1, 6) ? s.integer(-1, 1) : spread * s.real(-2, 2); return v; }
    static std::string show(const Value & v) { std::ostringstream o; o << "(" << v.transpose() << ")"; return o.str(); }
    static double mag(const Value & v) { double r = 0; for (int i = 0; i < v.size(); ++i) r = std::max<double>(r, std::fabs(v(i))); return r; }
    static std::vector<double> vec(const Value & v) { std::vector<double> r(v.size()); for (int i = 0; i < v.size(); ++i) r[i] = v(i); return r; }
    static orc::NIW ref(const Shared & s) {
        orc::NIW r; r.d = s.mu.size(); r.kappa = s.kappa; r.nu = s.nu;
        for (int i = 0; i < r.d; ++i) r.mu.push_back(s.mu(i));
        for (int i = 0; i < r.d; ++i) for (int j = 0; j < r.d; ++j) r.psi.push_back(s.psi(i, j));
        return r;
    }
    static orc::NiwStats stats(int d, const std::vector<Value> & xs, const Hist & h) {
        std::vector<std::vector<double>> v; for (auto & x : xs) v.push_back(vec(x));
        auto r = orc::niw_stats(d, v, h.peak, h.ops); r.e_x *= h.rep; r.e_xx *= h.rep; return r; }
    void check_stats(const Group & g, const std::vector<Value> & xs, const Hist & h) const {
        GroupPb m; g.protobuf_dump(m);
        auto s = stats(d, xs, h);
        REQ_EQ(static_cast<double>(m.count()), s.n, "niw count");
        REQ_EQ(m.sum_x_size(), d, "niw dim"); REQ_EQ(m.sum_xxt_size(), d * d, "niw dim");
        for (int i = 0; i < d; ++i) REQ_NEAR(m.sum_x(i), s.sx[i], s.e_x + 1e-6, "niw sum_x[" << i << "]");
        for (int i = 0; i < d * d; ++i) REQ_NEAR(m.sum_xxt(i), s.sxx[i], s.e_xx + 1e-6, "niw sum_xxT[" << i << "]");
    }
    static Sc score_value(const Shared & s, const std::vector<Value> & xs, const Hist & h, const Value & v) {
        return orc::niw_value(ref(s), stats(s.mu.size(), xs, h), vec(v)); }
    static Sc score_data(const Shared & s, const std::vector<Value> & xs, const Hist & h) {
        return orc::niw_data(ref(s), stats(s.mu.size(), xs, h)); }
};

#endif  // PART >= 2

// apply BODY<Model> for every model: X(suffix, Model)
typedef distributions::BetaBernoulli BB_;
typedef distributions::BetaNegativeBinomial BNB_;
typedef distributions::GammaPoisson GP_;
typedef distributions::DirichletDiscrete<8> DD8_;
typedef distributions::DirichletDiscrete<256> DD256_;
typedef distributions::DirichletProcessDiscrete DPD_;
typedef distributions::NormalInverseChiSq NICH_;
#if PART >= 2
typedef distributions::NormalInverseWishart<-1> NIWX_;
typedef distributions::NormalInverseWishart<2> NIW2_;
typedef distributions::NormalInverseWishart<3> NIW3_;
#endif
// Harness files are compiled once per PART, in parallel; each part covers some of the models.
#if PART == 0
#define FOR_MODELS X(bb, BB_, 1) X(bnb, BNB_, 1) X(gp, GP_, 1) X(nich, NICH_, 2)
#elif PART == 1
#define FOR_MODELS X(dd8, DD8_, 1) X(dd256, DD256_, 0.3) X(dpd, DPD_, 1)
#elif PART == 2
#define FOR_MODELS X(niwx, NIWX_, 1)
#elif PART == 3
#define FOR_MODELS X(niw2, NIW2_, 0.5) X(niw3, NIW3_, 0.5)
#endif

// what a model's scores are documented (KNOWN_FINDINGS) to leave out; 0 for all models but bnb
template<class A> static auto omitted_(int, const typename A::Shared & s, const typename A::Value & v) -> decltype(A::omitted(s, v)) { return A::omitted(s, v); }
template<class A> static double omitted_(long, const typename A::Shared &, const typename A::Value &) { return 0; }
template<class A> static double omitted_all(const typename A::Shared & s, const std::vector<typename A::Value> & xs) {
    double r = 0; for (auto x : xs) r += omitted_<A>(0, s, x); return r; }

// compares a score with the reference; with_full additionally tells whether the fully normalised score was returned
#define REQ_SCORE(actual, ref, omit, expr) do { double a2__ = (actual); ::orc::Sc r2__ = (ref); double o__ = (omit); \
    if (o__ == 0 || !::orc::Sc(r2__.v + o__, r2__.tol + 1e-6 * (1 + std::fabs(o__)), r2__.alt + o__).accepts(a2__)) REQ_SC(a2__, r2__, #actual ": " << expr); } while (0)

template<class A, class V> static std::string show_all(const std::vector<V> & xs) {
    std::string r = "["; for (size_t i = 0; i < xs.size(); ++i) { if (i) r += " "; r += A::show(xs[i]); } return r + "]"; }
template<class V> static void drop(std::vector<V> & xs, size_t i) { xs[i] = xs.back(); xs.pop_back(); }
// std::vector<bool> has no useful pick
template<class V> static V at(const std::vector<V> & xs, size_t i) { return xs[i]; }
