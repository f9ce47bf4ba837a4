// C03: chain rule. C04: normalisation. C05: closed-form conjugate scores, scorers and posteriors.
#include "driven.hpp"

template<class A> static void make_group(const A & a, Driven<A> & d, Src & src, rng_t & rng, int max_steps) {
    d.init(a, rng);
    bool removed = false, rep = false;
    int steps = src.boolean(1, 8) ? 0 : src.length(0, max_steps);
    for (int i = 0; i < steps; ++i) d.step(a, src, rng, removed, rep);
    if (src.boolean(1, 6)) {  // reached by a merge
        Driven<A> e;
        e.init(a, rng);
        int more = src.integer(0, 5);
        for (int i = 0; i < more; ++i) e.step(a, src, rng, removed, rep);
        d.g.merge(a.shared, e.g, rng);
        for (auto v : e.xs) d.xs.push_back(v);
        d.h.ops += e.h.ops + 1;
        d.h.peak = std::max(d.h.peak, e.h.peak);
        src.label("merged");
    }
}

// ------------------------------------------------------------------ C03
template<class M> static void chain(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    int n = src.length(0, src.boolean(1, 30) ? 300 : 40);
    std::vector<typename A::Value> xs;
    for (int i = 0; i < n; ++i) {
        if (!xs.empty() && src.boolean(1, 3)) { typename A::Value v = at(xs, src.index(xs.size())); xs.push_back(v); }
        else xs.push_back(a.value(src));
    }
    NOTE(src, "values " << show_all<A>(xs) << "; ");
    Hist h;
    h.ops = n;
    for (auto x : xs) h.peak = std::max(h.peak, A::mag(x));
    int orders = src.integer(1, 2);
    for (int o = 0; o <= orders; ++o) {
        typename A::Group g;
        g.init(a.shared, rng);
        if (o == 0) REQ_SC(g.score_data(a.shared, rng), Sc(0, A::score_data(a.shared, {}, Hist()).tol), A::name() << " score_data of the empty group");
        double sum = 0;
        Sc ref;
        std::vector<typename A::Value> held;
        Hist k;
        for (auto x : xs) {
            sum += g.score_value(a.shared, x, rng);
            ref = ref + A::score_value(a.shared, held, k, x);
            g.add_value(a.shared, x, rng);
            held.push_back(x);
            k.ops += 1;
            k.peak = std::max(k.peak, A::mag(x));
        }
        double data = g.score_data(a.shared, rng);
        Sc dref = A::score_data(a.shared, xs, h);
        if (dref.tol > 1e200 || ref.tol > 1e200) { src.label("ill-conditioned"); return; }
        // the reference itself obeys the chain rule, so only the approximation errors remain
        REQ_NEAR(dref.v, ref.v, 1e-7 * (1 + std::fabs(dref.v)) * (1 + n), "oracle of " << A::name());
        Sc slack(0, dref.tol + ref.tol, ref.alt - ref.v);
        REQ(slack.accepts(sum - data), A::name() << " sum of score_value " << eng::fmt(sum) << " but score_data " << eng::fmt(data)
            << " (tolerance " << eng::fmt(slack.width()) << ") for " << show_all<A>(xs));
        for (size_t i = xs.size(); i > 1; --i) { size_t j = src.index(i); auto t = at(xs, i - 1); xs[i - 1] = at(xs, j); xs[j] = t; }
    }
    if (n >= 2) src.nontrivial();
}

// ------------------------------------------------------------------ C04
static double soft(double tol) { return tol > 1 ? 1e300 : std::exp(tol) - 1; }

// sum over an enumerated support against the probability mass it should have
struct Mass { double got = 0, want = 0, tol = 0, weighted = 0; };

template<class A, class S> static void normal_support(const A & a, Driven<A> & d, Src & src, rng_t & rng, const std::vector<S> & support, bool whole) {
    Mass m;
    bool any_omitted = false;
    for (auto v : support) {
        double s = d.g.score_value(a.shared, v, rng);
        REQ(!eng::is_nan(s), A::name() << " score of " << A::show(v) << " is NaN");
        Sc r = A::score_value(a.shared, d.xs, d.h, v);
        double om = omitted_<A>(0, a.shared, v);
        if (om != 0) any_omitted = true;
        m.got += orc::exp_(s);
        m.weighted += orc::exp_(s + om);
        double p = orc::exp_(r.v + om);
        if (r.tol > 0.3 && p > 1e-4) { src.label("loose"); return; }
        m.want += p;
        m.tol += p * soft(std::min(r.tol, 50.0));
        if (!whole && 1 - m.want < 1e-7) break;  // only a negligible tail is left
    }
    if (whole) m.want = 1;
    if (m.tol > 0.3) { src.label("loose"); return; }
    if (m.tol < 0.01) src.label("tight");
    double tol = m.tol + 2e-6 + 1e-7 * support.size();
    if (eng::near(m.got, m.want, tol)) return;
    if (any_omitted && eng::near(m.weighted, m.want, tol)) { src.label("known:bnb-binomial-coefficient"); return; }
    REQ_NEAR(m.got, m.want, tol, A::name() << " sum of exp(score_value) over the support, given " << show_all<A>(d.xs));
}

#if PART == 0
static void normal(const Ad<BB_> & a, Driven<Ad<BB_>> & d, Src & src, rng_t & rng) { normal_support(a, d, src, rng, std::vector<char>{0, 1}, true); }
template<class M> static void normal_counts(const Ad<M> & a, Driven<Ad<M>> & d, Src & src, rng_t & rng) {
    std::vector<typename M::Value> s;
    for (int i = 0; i < 1500; ++i) s.push_back(i);
    normal_support(a, d, src, rng, s, false);
}
static void normal(const Ad<BNB_> & a, Driven<Ad<BNB_>> & d, Src & src, rng_t & rng) { normal_counts(a, d, src, rng); }
static void normal(const Ad<GP_> & a, Driven<Ad<GP_>> & d, Src & src, rng_t & rng) { normal_counts(a, d, src, rng); }
// real values: trapezoid rule over a grid that is finer near the mode
static void normal(const Ad<NICH_> & a, Driven<Ad<NICH_>> & d, Src & src, rng_t & rng) {
    typedef Ad<NICH_> A;
    auto st = A::stats(d.xs, d.h);
    double kn = a.shared.kappa + st.n, nu = a.shared.nu + st.n, mu = (a.shared.kappa * a.shared.mu + st.n * st.mean) / kn;
    double ns = a.shared.nu * a.shared.sigmasq + st.ctv + st.n * a.shared.kappa * (a.shared.mu - st.mean) * (a.shared.mu - st.mean) / kn;
    double s = orc::sqrt_(ns / nu * (kn + 1) / kn);
    if (std::fabs(mu) > 300 * s) { src.label("location far from 0 for float"); return; }
    double sum = 0, tol = 0, px = 0, pf = 0, pt = 0, x0 = 0, x1 = 0;
    const int half = 320;
    for (int i = -half; i <= half; ++i) {
        double t = i * 0.03;
        float x = static_cast<float>(mu + s * 0.5 * (orc::exp_(t) - orc::exp_(-t)));
        double sc = d.g.score_value(a.shared, x, rng), f = orc::exp_(sc);
        REQ(!eng::is_nan(sc), "nich score of " << x << " is NaN");
        Sc r = A::score_value(a.shared, d.xs, d.h, x);
        double e = f * soft(r.width());
        if (i > -half) { sum += 0.5 * (x - px) * (f + pf); tol += 0.5 * (x - px) * (e + pt); } else x0 = x;
        x1 = x; px = x; pf = f; pt = e;
    }
    double want = orc::student_cdf((x1 - mu) / s, nu) - orc::student_cdf((x0 - mu) / s, nu);
    if (tol > 0.5) { src.label("loose"); return; }
    REQ_NEAR(sum, want, 1.5 * tol + 2e-3, "nich integral of exp(score_value) given " << show_all<A>(d.xs));
    if (tol < 0.05) src.label("tight");
}
#elif PART == 1
template<int n> static void normal(const Ad<distributions::DirichletDiscrete<n>> & a, Driven<Ad<distributions::DirichletDiscrete<n>>> & d, Src & src, rng_t & rng) {
    double rest; normal_support(a, d, src, rng, a.support(d.xs, rest), true); }
static void normal(const Ad<DPD_> & a, Driven<Ad<DPD_>> & d, Src & src, rng_t & rng) {
    typedef Ad<DPD_> A;
    double rest;
    auto values = a.support(d.xs, rest);
    double got = 0, mass = a.shared.beta0, tol = 1e-6;
    for (auto k : a.keys) mass += a.shared.betas.get(k);
    for (auto v : values) {
        double s = d.g.score_value(a.shared, v, rng);
        REQ(!eng::is_nan(s), "dpd score of " << v << " is NaN");
        got += orc::exp_(s);
        Sc r = A::score_value(a.shared, d.xs, d.h, v);
        if (r.tol < 1) tol += orc::exp_(r.v) * soft(r.tol);
    }
    // the base weights themselves sum to 1 up to the minimum weight (C19)
    double want = (a.shared.alpha * mass + d.xs.size()) / (a.shared.alpha + d.xs.size());
    REQ_NEAR(want, 1.0, 1e-4, "dpd base weights");
    REQ_NEAR(got, want, tol, "dpd sum of exp(score_value) over seen values and OTHER given " << show_all<A>(d.xs));
    (void)src;
}
#else
template<int n> static void normal(const Ad<distributions::NormalInverseWishart<n>> & a, Driven<Ad<distributions::NormalInverseWishart<n>>> & d, Src & src, rng_t & rng) {
    typedef Ad<distributions::NormalInverseWishart<n>> A;
    int dim = a.d;
    orc::NIW m = A::ref(a.shared);
    orc::NiwPost p = orc::niw_post(m, A::stats(dim, d.xs, d.h));
    if (!p.ok) { src.label("ill-conditioned"); return; }
    double dof = p.nu - dim + 1, c = (p.kappa + 1) / (p.kappa * dof);
    // x = mu + sqrt(c) L y, with L the Cholesky factor of psi; y follows a standard t
    std::vector<double> L(dim * dim, 0);
    for (int i = 0; i < dim; ++i) for (int j = 0; j <= i; ++j) {
        double s = p.psi[i * dim + j];
        for (int k = 0; k < j; ++k) s -= L[i * dim + k] * L[j * dim + k];
        L[i * dim + j] = i == j ? orc::sqrt_(s) : s / L[j * dim + j];
    }
    double jac = 1;
    for (int i = 0; i < dim; ++i) jac *= L[i * dim + i] * orc::sqrt_(c);
    typename distributions::NormalInverseWishart<n>::Scorer scorer;
    scorer.init(a.shared, d.g, rng);
    auto density = [&](const std::vector<double> & y, double & tol) {
        typename A::Value x; x.resize(dim, 1);
        std::vector<double> xd(dim);
        for (int i = 0; i < dim; ++i) {
            double t = p.mu[i];
            for (int k = 0; k <= i; ++k) t += orc::sqrt_(c) * L[i * dim + k] * y[k];
            x(i) = t; xd[i] = x(i);
        }
        double s = scorer.eval(a.shared, x, rng);
        REQ(!eng::is_nan(s), "niw score is NaN");
        Sc r = orc::niw_value(m, A::stats(dim, d.xs, d.h), xd);
        tol = r.tol < 1 ? soft(r.tol) : 1e300;
        return orc::exp_(s) * jac;
    };
    if (dim <= 2) {
        // polar / one-dimensional grid in y; the mass outside radius R of a standard multivariate t is known for d = 1, 2
        double sum = 0, tol = 0, R = 40, want;
        if (dim == 1) {
            double pf = 0, pt = 0, py = 0;
            for (int i = -150; i <= 150; ++i) {
                double t = i * 0.03, y = 0.5 * (orc::exp_(t) - orc::exp_(-t)), e, f = density({y}, e);
                if (i > -150) { sum += 0.5 * (y - py) * (f + pf); tol += 0.5 * (y - py) * (f * e + pt); }
                py = y; pf = f; pt = f * e;
                R = y;
            }
            want = orc::student_cdf(R, dof) - orc::student_cdf(-R, dof);
        } else {
            const int na = 12, nr = 60;
            for (int k = 0; k < na; ++k) {
                double th = 2 * 3.141592653589793 * k / na, pf = 0, pt = 0, pr = 0;
                for (int i = 1; i <= nr; ++i) {
                    double r = orc::exp_(orc::log_(1 + R) * i / nr) - 1, e, f = density({r * std::cos(th), r * std::sin(th)}, e) * r;
                    sum += 0.5 * (r - pr) * (f + pf) * 2 * 3.141592653589793 / na;
                    tol += 0.5 * (r - pr) * (f * e + pt) * 2 * 3.141592653589793 / na;
                    pr = r; pf = f; pt = f * e;
                }
            }
            want = 1 - orc::pow_(1 + R * R / dof, -0.5 * dof);
        }
        if (tol > 0.5) { src.label("loose"); return; }
        REQ_NEAR(sum, want, 1.5 * tol + 1e-2, "niw integral of exp(score_value), d=" << dim << ", given " << d.xs.size() << " values");
        if (tol < 0.05) src.label("tight");
    } else {
        // importance sampling with standard t draws: the mean of density / proposal is 1
        std::mt19937_64 r(7);
        std::normal_distribution<double> nd;
        std::gamma_distribution<double> gd(dof / 2, 2);
        double sum = 0, tol = 0, lc = orc::lgam(0.5 * (dof + dim)) - orc::lgam(0.5 * dof) - 0.5 * dim * orc::log_(dof * 3.141592653589793);
        const int N = 60;
        int used = 0;
        for (int i = 0; i < N; ++i) {
            double chi = gd(r), q = 0, e;
            std::vector<double> y(dim);
            for (auto & t : y) { t = nd(r) / orc::sqrt_(chi / dof); q += t * t; }
            double lq = lc - 0.5 * (dof + dim) * orc::log_(1 + q / dof);
            double f = density(y, e);
            if (e > 1) continue;
            ++used;
            sum += f / orc::exp_(lq); tol += e;
        }
        if (used < N / 2) { src.label("loose"); return; }
        REQ_NEAR(sum / used, 1.0, tol / used + 1e-3, "niw importance-sampled integral of exp(score_value), d=" << dim);
        if (tol / used < 0.05) src.label("tight");
    }
}
#endif

template<class M> static void normalised(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    Driven<A> d;
    make_group(a, d, src, rng, 15);
    normal(a, d, src, rng);
    if (!d.xs.empty()) src.nontrivial();
}

// ------------------------------------------------------------------ C05
// the fully normalised reference is required, but for the recorded finding
template<class A> static void exact(double actual, Sc ref, double omit, const char * what, Src & src, const std::string & ctx) {
    Sc full(ref.v + omit, ref.tol + 1e-6 * (1 + std::fabs(omit)), ref.alt + omit);
    if (ref.tol > 1e200) { src.label("ill-conditioned"); return; }
    if (full.accepts(actual)) return;
    if (omit != 0 && ref.accepts(actual)) { src.label("known:bnb-binomial-coefficient"); return; }
    REQ(false, A::name() << " " << what << " = " << eng::fmt(actual) << ", reference " << eng::fmt(full.v) << " (tolerance " << eng::fmt(full.width()) << "); " << ctx);
}

#if PART == 0
static void posterior(const Ad<BB_> &, const Driven<Ad<BB_>> &, Src &) {}
static void posterior(const Ad<BNB_> & a, const Driven<Ad<BNB_>> & d, Src &) {
    auto p = a.shared.plus_group(d.g);
    double s = Ad<BNB_>::sum(d.xs);
    REQ_NEAR(p.alpha, a.shared.alpha + double(a.shared.r) * d.xs.size(), 3e-7 * (1 + a.shared.alpha + double(a.shared.r) * d.xs.size()), "bnb posterior alpha");
    REQ_NEAR(p.beta, a.shared.beta + s, 3e-7 * (1 + a.shared.beta + s), "bnb posterior beta");
    REQ_EQ(p.r, a.shared.r, "bnb posterior r");
}
static void posterior(const Ad<GP_> & a, const Driven<Ad<GP_>> & d, Src &) {
    auto p = a.shared.plus_group(d.g);
    double s = Ad<GP_>::sum(d.xs);
    REQ_NEAR(p.alpha, a.shared.alpha + s, 3e-7 * (1 + a.shared.alpha + s), "gp posterior alpha");
    REQ_NEAR(p.inv_beta, a.shared.inv_beta + double(d.xs.size()), 3e-7 * (1 + a.shared.inv_beta + d.xs.size()), "gp posterior inv_beta");
}
static void posterior(const Ad<NICH_> & a, const Driven<Ad<NICH_>> & d, Src &) {
    auto p = a.shared.plus_group(d.g);
    auto st = Ad<NICH_>::stats(d.xs, d.h);
    const auto & s = a.shared;
    double k = s.kappa + st.n, nu = s.nu + st.n, mu = (double(s.kappa) * s.mu + st.n * st.mean) / k;
    double dm = double(s.mu) - st.mean, c = st.n * s.kappa / k;
    double ns = double(s.nu) * s.sigmasq + st.ctv + c * dm * dm;
    REQ_NEAR(p.kappa, k, 3e-7 * k, "nich posterior kappa");
    REQ_NEAR(p.nu, nu, 3e-7 * nu, "nich posterior nu");
    REQ_NEAR(p.mu, mu, st.e_mean + 1e-6 * (std::fabs(s.mu) + std::fabs(st.mean)), "nich posterior mu");
    double e = st.e_ctv + c * (2 * std::fabs(dm) * (st.e_mean + 2e-7 * (std::fabs(s.mu) + std::fabs(st.mean))) + st.e_mean * st.e_mean) + 3e-6 * ns;
    REQ_NEAR(p.nu * p.sigmasq, ns, e, "nich posterior nu * sigmasq");
}
#elif PART == 1
template<class A> static void posterior(const A &, const Driven<A> &, Src &) {}
#else
template<class A> static void posterior(const A & a, const Driven<A> & d, Src &) {
    auto p = a.shared.plus_group(d.g);
    orc::NiwPost r = orc::niw_post(A::ref(a.shared), A::stats(a.d, d.xs, d.h));
    REQ_NEAR(p.kappa, r.kappa, 3e-7 * r.kappa, "niw posterior kappa");
    REQ_NEAR(p.nu, r.nu, 3e-7 * r.nu, "niw posterior nu");
    REQ_EQ(static_cast<int>(p.mu.size()), a.d, "niw posterior dim");
    for (int i = 0; i < a.d; ++i) REQ_NEAR(p.mu(i), r.mu[i], r.e_mu, "niw posterior mu");
    for (int i = 0; i < a.d; ++i) for (int j = 0; j < a.d; ++j) REQ_NEAR(p.psi(i, j), r.psi[i * a.d + j], 2 * r.e_psi, "niw posterior psi");
}
#endif

template<class M> static void closed_form(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    Driven<A> d;
    make_group(a, d, src, rng, 40);
    std::string ctx = "group " + show_all<A>(d.xs);
    exact<A>(d.g.score_data(a.shared, rng), A::score_data(a.shared, d.xs, d.h), omitted_all<A>(a.shared, d.xs), "score_data", src, ctx);
    typename M::Scorer scorer;
    scorer.init(a.shared, d.g, rng);
    int n = src.integer(1, 5);
    for (int i = 0; i < n; ++i) {
        auto v = d.xs.empty() || src.boolean(2, 3) ? a.value(src) : at(d.xs, src.index(d.xs.size()));
        NOTE(src, "score " << A::show(v) << "; ");
        Sc r = A::score_value(a.shared, d.xs, d.h, v);
        double om = omitted_<A>(0, a.shared, v);
        exact<A>(d.g.score_value(a.shared, v, rng), r, om, "score_value", src, A::show(v) + " given " + ctx);
        exact<A>(scorer.eval(a.shared, v, rng), r, om, "Scorer::eval", src, A::show(v) + " given " + ctx);
        // a reused scorer forgets its previous group
        if (i == 0 && src.boolean(1, 3)) {
            typename A::Group e;
            e.init(a.shared, rng);
            scorer.init(a.shared, e, rng);
            exact<A>(scorer.eval(a.shared, v, rng), A::score_value(a.shared, {}, Hist(), v), om, "reused Scorer::eval", src, A::show(v) + " given an empty group");
            scorer.init(a.shared, d.g, rng);
        }
    }
    posterior(a, d, src);
    // hyperparameters are an argument, not state: the same group scored under others
    if (src.boolean(1, 3)) {
        auto o = a.other_shared(src);
        exact<A>(d.g.score_data(o, rng), A::score_data(o, d.xs, d.h), omitted_all<A>(o, d.xs), "score_data", src, "other hyperparameters, " + ctx);
        auto v = a.value(src);
        exact<A>(d.g.score_value(o, v, rng), A::score_value(o, d.xs, d.h, v), omitted_<A>(0, o, v), "score_value", src, "other hyperparameters, " + ctx);
    }
    if (!d.xs.empty()) src.nontrivial();
}

#define X(suffix, M, w) \
    TARGET(C03_##suffix, w, "at least two values, scored in two or more orders") { chain<M>(src); } \
    TARGET(C04_##suffix, w, "the group is not empty") { normalised<M>(src); } \
    TARGET(C05_##suffix, w, "the group is not empty") { closed_form<M>(src); }
FOR_MODELS
