// C15: sample_value and Sampler draws follow the posterior predictive.
// The oracle is the sequential probability integral transform: given the group, u1 = F(x1) is uniform, and for
// draws of one sampler u2 = F(x2 | group and x1) is uniform and independent of u1, and so on, exactly if the
// draws are exchangeable with one shared latent parameter.  Discrete draws are randomised within their step.
#include "driven.hpp"

static double unit_(std::mt19937_64 & r) { return ((r() >> 11) + 0.5) / 9007199254740992.0; }

// ---- Cdf<A>: the predictive of a group with values added to it one by one
template<class A> struct Cdf;

#if PART == 0
template<> struct Cdf<Ad<BB_>> {
    double h, t; 
    Cdf(const Ad<BB_> & a, const Driven<Ad<BB_>> & d, Src &) { Ad<BB_>::count(d.xs, h, t); h += a.shared.alpha; t += a.shared.beta; }
    bool ok() const { return true; }
    double u(const bool & x, std::mt19937_64 & r) { double p0 = t / (h + t), v = unit_(r); return x ? p0 + v * (1 - p0) : v * p0; }
    void add(const bool & x) { (x ? h : t) += 1; }
};
template<> struct Cdf<Ad<BNB_>> {
    double alpha, beta, r; bool fine; static constexpr double cut = 3000;
    Cdf(const Ad<BNB_> & a, const Driven<Ad<BNB_>> & d, Src &) {
        r = a.shared.r; alpha = a.shared.alpha + r * d.xs.size(); beta = a.shared.beta + Ad<BNB_>::sum(d.xs);
        fine = alpha >= 0.3 && beta * r < 200 * alpha;
    }
    bool ok() const { return fine; }
    double u(const uint32_t & x, std::mt19937_64 & g) {
        double p = orc::exp_(orc::log_beta(alpha + r, beta) - orc::log_beta(alpha, beta)), below = 0;
        for (double k = 0; k < x; ++k) {
            below += p;
            if (k > cut || below > 1 - 1e-12) return 1 - unit_(g) * std::max(0.0, 1 - below);
            p *= (r + k) * (beta + k) / ((k + 1) * (alpha + beta + r + k));
        }
        return below + p * unit_(g);
    }
    void add(const uint32_t & x) { alpha += r; beta += x; }
};
template<> struct Cdf<Ad<GP_>> {
    double a, b;
    Cdf(const Ad<GP_> & m, const Driven<Ad<GP_>> & d, Src &) { a = m.shared.alpha + Ad<GP_>::sum(d.xs); b = m.shared.inv_beta + d.xs.size(); }
    bool ok() const { return a / b < 1e6; }
    double u(const uint32_t & x, std::mt19937_64 & g) {
        double p = b / (b + 1), lo = x ? orc::beta_cdf(p, a, x) : 0, hi = orc::beta_cdf(p, a, x + 1.0);
        return lo + (hi - lo) * unit_(g); }
    void add(const uint32_t & x) { a += x; b += 1; }
};
template<> struct Cdf<Ad<NICH_>> {
    double mu, kappa, nu, ns; bool fine;
    Cdf(const Ad<NICH_> & a, const Driven<Ad<NICH_>> & d, Src &) {
        auto st = Ad<NICH_>::stats(d.xs, d.h);
        double dm = double(a.shared.mu) - st.mean;
        kappa = a.shared.kappa + st.n; nu = a.shared.nu + st.n; mu = (double(a.shared.kappa) * a.shared.mu + st.n * st.mean) / kappa;
        ns = double(a.shared.nu) * a.shared.sigmasq + st.ctv + a.shared.kappa * st.n / kappa * dm * dm;
        double s = orc::sqrt_(ns / nu);
        fine = st.e_mean + 1e-6 * (std::fabs(a.shared.mu) + std::fabs(st.mean)) < 0.003 * s && st.e_ctv < 0.003 * ns;
        if (nu < 0.5) fine = false;   // draws overflow single precision
    }
    bool ok() const { return fine; }
    double u(const float & x, std::mt19937_64 &) { return orc::student_cdf((x - mu) / orc::sqrt_(ns / nu * (kappa + 1) / kappa), nu); }
    void add(const float & x) { ns += kappa / (kappa + 1) * (x - mu) * (x - mu); mu = (kappa * mu + x) / (kappa + 1); kappa += 1; nu += 1; }
};
static bool in_support(const Ad<BB_> &, const bool &) { return true; }
static bool in_support(const Ad<BNB_> &, const uint32_t &) { return true; }
static bool in_support(const Ad<GP_> &, const uint32_t &) { return true; }
static bool in_support(const Ad<NICH_> &, const float & x) { return eng::is_finitef(x); }
#elif PART == 1
template<class V> struct CatCdf {   // weights in a fixed random order, so that every split of the categories gets tested
    std::vector<V> keys; std::vector<double> w; double z = 0;
    void put(V k, double x) { keys.push_back(k); w.push_back(x); z += x; }
    void shuffle(Src & src) { for (size_t i = keys.size(); i > 1; --i) { size_t j = src.index(i); std::swap(keys[i - 1], keys[j]); std::swap(w[i - 1], w[j]); } }
    bool ok() const { return true; }
    double u(const V & x, std::mt19937_64 & r) {
        double below = 0;
        for (size_t i = 0; i < keys.size(); ++i) { if (keys[i] == x) return (below + w[i] * unit_(r)) / z; below += w[i]; }
        return 0; }
    void add(const V & x) { for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == x) { w[i] += 1; z += 1; } }
};
template<int n> struct Cdf<Ad<distributions::DirichletDiscrete<n>>> : CatCdf<int> {
    typedef Ad<distributions::DirichletDiscrete<n>> A;
    Cdf(const A & a, const Driven<A> & d, Src & src) {
        auto c = A::counts(a.shared, d.xs);
        for (int i = 0; i < a.shared.dim; ++i) put(i, a.shared.alphas[i] + c[i]);
        shuffle(src);
    }
};
template<> struct Cdf<Ad<DPD_>> : CatCdf<DPD_::Value> {
    typedef Ad<DPD_> A;
    Cdf(const A & a, const Driven<A> & d, Src & src) {
        for (auto k : a.keys) put(k, double(a.shared.alpha) * a.shared.betas.get(k) + A::count(d.xs, k));
        if (a.shared.beta0 > 0) put(DPD_::OTHER(), double(a.shared.alpha) * a.shared.beta0);
        shuffle(src);
    }
};
template<int n> static bool in_support(const Ad<distributions::DirichletDiscrete<n>> & a, const int & x) { return 0 <= x && x < a.shared.dim; }
static bool in_support(const Ad<DPD_> & a, const DPD_::Value & x) {
    return x == DPD_::OTHER() ? a.shared.beta0 > 0 : std::find(a.keys.begin(), a.keys.end(), x) != a.keys.end(); }
#else
template<int n> struct Cdf<Ad<distributions::NormalInverseWishart<n>>> {
    typedef Ad<distributions::NormalInverseWishart<n>> A;
    int d; double kappa, nu; std::vector<double> mu, psi, w; bool fine, radial;
    Cdf(const A & a, const Driven<A> & g, Src & src) {
        d = a.d;
        orc::NiwPost p = orc::niw_post(A::ref(a.shared), A::stats(d, g.xs, g.h));
        kappa = p.kappa; nu = p.nu; mu = p.mu; psi = p.psi;
        fine = sampleable(a, g);
        radial = d > 1 && src.boolean(1, 3);
        for (int i = 0; i < d; ++i) w.push_back(src.boolean(1, 4) ? 0 : src.real(-1, 1));
        double s = 0; for (double x : w) s += x * x;
        if (s < 0.01) w[src.index(d)] = 1;
        double q = 0, m = 0; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { q += w[i] * psi[i * d + j] * w[j]; m += std::fabs(w[i] * psi[i * d + j] * w[j]); }
        if (q < 1e-3 * m) fine = false;
    }
    bool ok() const { return fine; }
    double u(const typename A::Value & x, std::mt19937_64 &) {
        double dof = nu - d + 1, c = (kappa + 1) / (kappa * dof);
        if (radial) {
            std::vector<double> inv; double ld, q = 0;
            orc::spd(d, psi, &inv, &ld);
            for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q += (x(i) - mu[i]) * inv[i * d + j] * (x(j) - mu[j]);
            q /= c;    // q / d follows F(d, dof)
            return orc::beta_cdf(q / (q + dof), 0.5 * d, 0.5 * dof);
        }
        double m = 0, q = 0;
        for (int i = 0; i < d; ++i) { m += w[i] * (x(i) - mu[i]); for (int j = 0; j < d; ++j) q += w[i] * psi[i * d + j] * w[j]; }
        return orc::student_cdf(m / orc::sqrt_(c * q), dof);
    }
    void add(const typename A::Value & x) {
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) psi[i * d + j] += kappa / (kappa + 1) * (x(i) - mu[i]) * (x(j) - mu[j]);
        for (int i = 0; i < d; ++i) mu[i] = (kappa * mu[i] + x(i)) / (kappa + 1);
        kappa += 1; nu += 1;
    }
};
template<int n> static bool in_support(const Ad<distributions::NormalInverseWishart<n>> & a, const typename Ad<distributions::NormalInverseWishart<n>>::Value & x) {
    if (x.size() != a.d) return false;
    for (int i = 0; i < a.d; ++i) if (!eng::is_finitef(x(i))) return false;
    return true; }
#endif

static double grid(const std::vector<double> & a, const std::vector<double> & b) {
    std::vector<double> o(16, 0), e(16, a.size() / 16.0);
    for (size_t i = 0; i < a.size(); ++i) o[std::min(3, int(4 * a[i])) * 4 + std::min(3, int(4 * b[i]))] += 1;
    return orc::chi2_test(o, e);
}
static double tails(const std::vector<double> & u) {
    static const double edge[] = {0, 0.004, 0.02, 0.07, 0.93, 0.98, 0.996, 1};
    std::vector<double> o(7, 0), e;
    for (int i = 0; i < 7; ++i) e.push_back((edge[i + 1] - edge[i]) * u.size());
    for (double x : u) { int i = 0; while (i < 6 && x >= edge[i + 1]) ++i; o[i] += 1; }
    return orc::chi2_test(o, e);
}
// returns the smallest p value, times the number of tests
template<class A> static double draws(const A & a, const Driven<A> & d, const Cdf<A> & cdf, bool one_sampler, rng_t & rng, int n, std::string & worst) {
    typedef typename A::M M;
    std::mt19937_64 r(rng());
    const int K = 3;
    std::vector<std::vector<double>> u(K);
    typename M::Sampler sampler;
    for (int i = 0; i < n; ++i) {
        Cdf<A> c = cdf;
        if (one_sampler) sampler.init(a.shared, d.g, rng);
        for (int k = 0; k < K; ++k) {
            typename A::Value x = one_sampler ? sampler.eval(a.shared, rng) : d.g.sample_value(a.shared, rng);
            REQ(in_support(a, x), A::name() << " drew " << A::show(x) << ", outside of its support");
            double v = c.u(x, r);
            REQ(v >= -1e-9 && v <= 1 + 1e-9, A::name() << " drew " << A::show(x));
            u[k].push_back(std::min(1 - 1e-12, std::max(0.0, v)));
            if (one_sampler) c.add(x);
        }
    }
    double p = 1;
    auto take = [&](double q, const std::string & what) { if (q < p) { p = q; worst = what; } };
    for (int k = 0; k < K; ++k) take(orc::ks_test(u[k]), "draw " + std::to_string(k + 1));
    for (int k = 1; k < K; ++k) take(grid(u[k - 1], u[k]), "draws " + std::to_string(k) + " and " + std::to_string(k + 1) + " together");
    for (int k = 0; k < K; ++k) take(tails(u[k]), "tails of draw " + std::to_string(k + 1));
    return std::min(1.0, 8 * p);
}
static const int N = 800;
template<class S> static auto few_degrees(S & s, Src & src) -> decltype(s.sigmasq, void()) { s.nu = static_cast<float>(src.logreal(0.5, 2)); NOTE(src, "nu=" << s.nu << " instead; "); }
template<class S, class ... R> static void few_degrees(S &, R & ...) {}

template<class M> static void predictive(Src & src, bool few = false) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    if (few) few_degrees(a.shared, src);
    if (src.boolean(3, 4)) more_degrees(a.shared, 0);
    Driven<A> d;
    d.init(a, rng);
    bool removed = false, rep = false;
    int steps = few ? src.integer(0, 1) : src.boolean(1, 4) ? 0 : src.length(0, src.boolean(1, 8) ? 150 : 12);
    for (int i = 0; i < steps; ++i) d.step(a, src, rng, removed, rep);
    if (!few && src.boolean(1, 8)) {
        Driven<A> e;
        e.init(a, rng);
        int more = src.integer(0, 5);
        for (int i = 0; i < more; ++i) e.step(a, src, rng, removed, rep);
        d.g.merge(a.shared, e.g, rng);
        for (auto v : e.xs) d.xs.push_back(v);
        d.h.ops += e.h.ops + 1;
        d.h.peak = std::max(d.h.peak, e.h.peak);
    }
    bool one_sampler = src.boolean(2, 3);
    Cdf<A> cdf(a, d, src);
    if (!cdf.ok()) { src.label("ill-conditioned"); return; }
    uint32_t seed = 1 + src.draw(2000000000);
    NOTE(src, (one_sampler ? "one sampler" : "sample_value") << " seed=" << seed << "; ");
    std::string worst;
    rng_t r1(seed);
    double p = draws(a, d, cdf, one_sampler, r1, few ? 5 * N : N, worst);
    if (p < 3e-3) {
        rng_t r2((seed ^ 0x2545F491u) % 2147483646 + 1);
        double p2 = draws(a, d, cdf, one_sampler, r2, 10 * N, worst);
        if (p2 < 1e-5) {
            rng_t r3((seed ^ 0x1B873593u) % 2147483646 + 1);
            double p3 = draws(a, d, cdf, one_sampler, r3, 10 * N, worst);
            REQ(p3 > 1e-7, A::name() << (one_sampler ? " sampler" : " sample_value") << " does not follow the posterior predictive: " << worst
                << ", p values " << p << ", " << p2 << ", " << p3 << "; group " << show_all<A>(d.xs));
        }
    }
    if (few || !d.xs.empty()) src.nontrivial();
}

#define X(suffix, M, w) TARGET(C15_##suffix, w, "the group is not empty") { predictive<M>(src); }
FOR_MODELS
#if PART == 0
TARGET(C15_nich_few, 0.1, "always") { predictive<NICH_>(src, true); }
#endif
