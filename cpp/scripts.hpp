// Generated histories over the library whose every result goes into a trace (C23, C27).
#pragma once
#include "driven.hpp"
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
using namespace distributions;

struct Trace {
    std::vector<uint64_t> v;
    std::vector<const char *> what;
    void bits(const char * w, uint64_t x) { v.push_back(x); what.push_back(w); }
    void num(const char * w, double x) { uint64_t u; std::memcpy(&u, &x, 8); bits(w, u); }
    void num(const char * w, float x) { uint32_t u; std::memcpy(&u, &x, 4); bits(w, u); }
    void bytes(const char * w, const std::string & s) { bits(w, eng::hash64(s.data(), s.size())); }
};
static void val(Trace & t, const char * w, bool x) { t.bits(w, x); }
static void val(Trace & t, const char * w, int x) { t.bits(w, x); }
static void val(Trace & t, const char * w, uint32_t x) { t.bits(w, x); }
static void val(Trace & t, const char * w, float x) { t.num(w, x); }
#if PART >= 2
template<class V> static void val(Trace & t, const char * w, const V & x) { for (int i = 0; i < x.size(); ++i) t.num(w, static_cast<float>(x(i))); }
#endif

#define KEEPS(rng, what, expr) do { rng_t before__(rng); expr; REQ(before__ == (rng), what << " consumed randomness"); } while (0)
#define ONE_COPY __attribute__((noipa))
template<class G, class S> ONE_COPY static float data_of(const G & g, const S & s, rng_t & rng) { return g.score_data(s, rng); }
template<class G, class S, class V> ONE_COPY static float value_of(const G & g, const S & s, const V & v, rng_t & rng) { return g.score_value(s, v, rng); }

template<class A> static void shared_add(A &, const typename A::Value &, rng_t &) {}
template<class A> static void shared_remove(A &, const typename A::Value &, rng_t &) {}
#if PART == 1
static void sync_keys(Ad<DPD_> & a) { a.keys.clear(); for (auto & i : a.shared.betas) a.keys.push_back(i.first); std::sort(a.keys.begin(), a.keys.end()); }
static void shared_add(Ad<DPD_> & a, const uint32_t & v, rng_t & rng) { a.shared.add_value(v, rng); sync_keys(a); }
static void shared_remove(Ad<DPD_> & a, const uint32_t & v, rng_t & rng) { a.shared.remove_value(v, rng); sync_keys(a); }
#endif

// scoring, sampling, dumping and validating leave group and shared as they were
template<class M> static void const_ops(Ad<M> & a, Driven<Ad<M>> & d, Src & src, rng_t & rng, Trace & t) {
    typedef Ad<M> A;
    const typename A::Group & g = d.g;
    const typename A::Shared & s = a.shared;
    typename A::GroupPb before, after; typename A::SharedPb sb, sa;
    g.protobuf_dump(before); s.protobuf_dump(sb);
    auto v = a.value(src);
    float sd, sv;
    KEEPS(rng, "score_data", sd = data_of(g, s, rng));
    KEEPS(rng, "score_value", sv = value_of(g, s, v, rng));
    t.num("score_data", sd); t.num("score_value", sv);
    int n = src.integer(1, 6);
    bool can = sampleable(a, d);
    for (int i = 0; i < n; ++i) switch (src.draw(5)) {
        case 0: { typename M::Scorer sc; auto w = a.value(src); float x = 0, y = 0; KEEPS(rng, "Scorer", (sc.init(s, g, rng), x = sc.eval(s, w, rng), y = sc.eval(s, w, rng))); t.num("Scorer::eval", x); t.num("Scorer::eval", y); break; }
        case 1: if (can) { val(t, "sample_value", g.sample_value(s, rng)); } break;
        case 2: if (can) { typename M::Sampler sm; sm.init(s, g, rng); for (int k = src.integer(1, 3); k > 0; --k) val(t, "Sampler::eval", sm.eval(s, rng)); } break;
        case 3: { typename A::GroupPb m; typename A::SharedPb q; KEEPS(rng, "dump", (g.protobuf_dump(m), s.protobuf_dump(q))); break; }
        case 4: { KEEPS(rng, "validate", g.validate(s)); break; }
        default: { auto w = a.value(src); KEEPS(rng, "score_value", t.num("score_value", value_of(g, s, w, rng))); }
    }
    g.protobuf_dump(after); s.protobuf_dump(sa);
    std::string x, y; before.SerializeToString(&x); after.SerializeToString(&y);
    REQ(x == y, A::name() << " group changed by const operations: " << before.ShortDebugString() << " to " << after.ShortDebugString());
    sb.SerializeToString(&x); sa.SerializeToString(&y);
    REQ(x == y, A::name() << " shared changed by const operations: " << sb.ShortDebugString() << " to " << sa.ShortDebugString());
    float sd2 = data_of(g, s, rng), sv2 = value_of(g, s, v, rng);
    REQ_EQ(eng::fmt(sd2), eng::fmt(sd), A::name() << " score_data changed by const operations");
    REQ_EQ(eng::fmt(sv2), eng::fmt(sv), A::name() << " score_value changed by const operations");
    t.bytes("dump", y);
}

template<class M> static void group_script(Src & src, rng_t & rng, Trace & t) {
    typedef Ad<M> A;
    A a(src, rng);
    if (src.boolean()) more_degrees(a.shared, 0);
    Driven<A> d;
    d.init(a, rng);
    bool removed = false, rep = false;
    int steps = src.length(1, 15);
    for (int i = 0; i < steps; ++i) {
        if (src.boolean(1, 3)) const_ops<M>(a, d, src, rng, t); else d.step(a, src, rng, removed, rep);
        if (src.boolean(1, 8)) { Driven<A> e; e.init(a, rng); e.step(a, src, rng, removed, rep); d.g.merge(a.shared, e.g, rng); for (auto v : e.xs) d.xs.push_back(v); }
    }
    const_ops<M>(a, d, src, rng, t);
    typename A::GroupPb m; d.g.protobuf_dump(m); std::string s; m.SerializeToString(&s); t.bytes("group dump", s);
    if (d.xs.size()) src.nontrivial();
}

template<class Mix, class S, class V> ONE_COPY static void score_all(const Mix & mix, const S & s, const V & v, AlignedFloats out, rng_t & rng) { mix.score_value(s, v, out, rng); }
template<class Mix, class S> ONE_COPY static float score_mix(const Mix & mix, const S & s, rng_t & rng) { return mix.score_data(s, rng); }

// hyperparameters that a cache could mistake for the old ones: the same numbers in another order
template<class S> static bool rearrange(S &) { return false; }
#if PART == 0
static bool rearrange(distributions::BetaBernoulli::Shared & s) { std::swap(s.alpha, s.beta); return true; }
static bool rearrange(distributions::BetaNegativeBinomial::Shared & s) { std::swap(s.alpha, s.beta); return true; }
static bool rearrange(distributions::GammaPoisson::Shared & s) { std::swap(s.alpha, s.inv_beta); return true; }
#endif
#if PART == 1
template<int n> static bool rotate(typename distributions::DirichletDiscrete<n>::Shared & s) { std::rotate(s.alphas, s.alphas + 1, s.alphas + s.dim); return true; }
static bool rearrange(distributions::DirichletDiscrete<8>::Shared & s) { return rotate<8>(s); }
static bool rearrange(distributions::DirichletDiscrete<256>::Shared & s) { return rotate<256>(s); }
static bool rearrange(DPD_::Shared & s) {
    if (s.betas.size() < 2) return false;
    auto i = s.betas.begin(), j = s.betas.begin(); ++j;
    std::swap(i->second, j->second); return true;
}
#endif

template<class M, class Mix> static void mixture_script(Src & src, rng_t & rng, Trace & t) {
    typedef Ad<M> A;
    A a(src, rng);
    Mix mix;
    int k0 = src.integer(1, 5);
    mix.groups().resize(k0);
    std::vector<std::vector<typename A::Value>> xs(k0);
    for (int i = 0; i < k0; ++i) mix.groups(i).init(a.shared, rng);
    mix.init(a.shared, rng);
    int steps = src.length(1, 20);
    auto look = [&]() {
        const Mix & c = mix;
        size_t n = xs.size();
        auto v = a.value(src);
        VectorFloat o1(n, 0.f), o2(n, 0.f);
        KEEPS(rng, "mixture score_value", score_all(c, a.shared, v, AlignedFloats(o1.data(), n), rng));
        float d1 = 0, d2;
        KEEPS(rng, "mixture score_data", d1 = score_mix(c, a.shared, rng));
        if (n) { float s = 0; size_t i = src.index(n); KEEPS(rng, "mixture score_value_group", s = c.score_value_group(a.shared, i, v, rng)); t.num("score_value_group", s); }
        if (n && PART < 2 && src.boolean()) val(t, "sample_value", c.groups(src.index(n)).sample_value(a.shared, rng));
        score_all(c, a.shared, v, AlignedFloats(o2.data(), n), rng);
        d2 = score_mix(c, a.shared, rng);
        for (size_t i = 0; i < n; ++i) { REQ_EQ(eng::fmt(o1[i]), eng::fmt(o2[i]), A::name() << " mixture score_value is not repeatable"); t.num("mixture score_value", o1[i]); }
        REQ_EQ(eng::fmt(d1), eng::fmt(d2), A::name() << " mixture score_data is not repeatable");
        t.num("mixture score_data", d1);
        // a mixture of the same groups with no past
        Mix anew;
        anew.groups() = mix.groups();
        anew.init(a.shared, rng);
        const Mix & ca = anew;
        float d3 = score_mix(ca, a.shared, rng);
        REQ_EQ(eng::fmt(d1), eng::fmt(d3), A::name() << " score_data of a mixture with a past and of a new one of the same groups");
    };
    for (int s = 0; s < steps; ++s) {
        size_t n = xs.size();
        std::vector<size_t> full, empty;
        for (size_t i = 0; i < n; ++i) (xs[i].empty() ? empty : full).push_back(i);
        switch (src.weighted({2, empty.empty() ? 0 : 1, n ? 6 : 0, full.empty() ? 0 : 4, 3, 1})) {
            case 5:
                if (src.boolean(1, 3) || !rearrange(a.shared)) a.shared = a.other_shared(src);
                mix.init(a.shared, rng);
                break;
            case 0: mix.add_group(a.shared, rng); xs.emplace_back(); break;
            case 1: { size_t i = src.pick(empty); mix.remove_group(a.shared, i); xs[i] = xs.back(); xs.pop_back(); break; }
            case 2: { size_t i = src.index(n); auto v = a.value(src); shared_add(a, v, rng); mix.add_value(a.shared, i, v, rng); xs[i].push_back(v); break; }
            case 3: { size_t i = src.pick(full), j = src.index(xs[i].size()); auto v = at(xs[i], j); mix.remove_value(a.shared, i, v, rng); drop(xs[i], j); shared_remove(a, v, rng); break; }
            default: look();
        }
    }
    look();
    if (xs.size() >= 2) src.nontrivial();
}

#if PART == 0
template<class Model> static void driver_script(const Model & model, Src & src, rng_t & rng, Trace & t) {
    typename Model::Mixture driver;
    std::vector<int> counts;
    for (int i = src.integer(0, 4); i > 0; --i) counts.push_back(src.integer(1, 5));
    for (int i = src.integer(1, 3); i > 0; --i) counts.push_back(0);
    driver.counts() = counts;
    driver.init(model);
    int steps = src.length(1, 20);
    for (int s = 0; s < steps; ++s) {
        const auto & c = driver.counts();
        size_t n = c.size();
        std::vector<size_t> full;
        for (size_t i = 0; i < n; ++i) if (c[i]) full.push_back(i);
        VectorFloat o1(n, 0.f), o2(n, 0.f);
        driver.score_value(model, AlignedFloats(o1.data(), n));
        for (float x : o1) t.num("driver score_value", x);
        if (src.boolean()) t.bits("sample_from_scores", sample_from_scores_overwrite(rng, o1));
        if (full.empty() || src.boolean()) t.bits("add_value", driver.add_value(model, src.index(n)));
        else t.bits("remove_value", driver.remove_value(model, full[src.index(full.size())]));
        t.bits("sample_size", driver.sample_size());
        if (driver.sample_size() > 0 && src.boolean(1, 3)) t.num("score_counts", model.score_counts(driver.counts()));
    }
    src.nontrivial();
}
static void clustering_script(Src & src, rng_t & rng, Trace & t) {
    typedef Clustering<int> C;
    int n = src.length(0, 60);
    if (src.boolean()) {
        C::PitmanYor p; p.alpha = src.f(0.01, 100); p.d = src.boolean(1, 3) ? 0 : src.real(0, 0.99);
        for (int x : p.sample_assignments(n, rng)) t.bits("PitmanYor::sample_assignments", x);
        driver_script(p, src, rng, t);
    } else {
        C::LowEntropy p; p.dataset_size = 200 + src.integer(0, 1000);
        for (int x : p.sample_assignments(n, rng)) t.bits("LowEntropy::sample_assignments", x);
        t.num("log_partition_function", p.log_partition_function(n + 1));
        driver_script(p, src, rng, t);
    }
}
static void random_script(Src & src, rng_t & rng, Trace & t) {
    int n = src.length(1, 30);
    for (int i = 0; i < n; ++i) {
        std::vector<float> w; VectorFloat s;
        int m = src.integer(1, 12);
        switch (src.draw(19)) {
            case 0: t.bits("sample_int", sample_int(rng, -3, src.integer(-3, 100))); break;
            case 1: t.num("sample_unif01", sample_unif01(rng)); break;
            case 2: t.bits("sample_bernoulli", sample_bernoulli(rng, src.unit())); break;
            case 3: t.num("sample_std_normal", sample_std_normal(rng)); break;
            case 4: t.num("sample_normal", sample_normal(rng, src.real(-5, 5), src.f(0.1, 10))); break;
            case 5: t.num("sample_chisq", sample_chisq(rng, src.f(0.1, 100))); break;
            case 6: t.bits("sample_poisson", sample_poisson(rng, src.f(0.1, 200))); break;
            case 7: t.bits("sample_negative_binomial", sample_negative_binomial(rng, src.real(0.05, 0.95), src.integer(1, 20))); break;
            case 8: t.num("sample_gamma", sample_gamma(rng, src.f(0.05, 50), src.f(0.1, 10))); break;
            case 9: t.num("sample_beta", sample_beta(rng, src.f(0.1, 50), src.f(0.1, 50))); break;
            case 10: t.num("sample_beta_safe", sample_beta_safe(rng, src.f(0.1, 50), src.f(0.1, 50), 1e-4f)); break;
            case 11: case 12: { std::vector<float> o(m); for (int k = 0; k < m; ++k) w.push_back(src.f(0.05, 20));
                if (src.boolean()) sample_dirichlet(rng, m, w.data(), o.data()); else sample_dirichlet_safe(rng, m, w.data(), o.data(), 1e-5f);
                for (float x : o) t.num("sample_dirichlet", x); break; }
            case 13: { float z = 0; for (int k = 0; k < m; ++k) { w.push_back(src.f(0.05, 20)); z += w.back(); } for (auto & x : w) x /= z; t.bits("sample_discrete", sample_discrete(rng, m, w.data())); break; }
            case 14: { for (int k = 0; k < m; ++k) w.push_back(src.f(0.05, 20)); t.bits("sample_from_likelihoods", sample_from_likelihoods(rng, w)); break; }
            case 15: { for (int k = 0; k < m; ++k) s.push_back(src.real(-20, 20)); std::vector<float> c(s.begin(), s.end()); t.bits("sample_from_scores", sample_from_scores(rng, c)); for (int k = 0; k < m; ++k) REQ_EQ(c[k], s[k], "sample_from_scores changed its scores"); break; }
            case 16: { for (int k = 0; k < m; ++k) s.push_back(src.real(-20, 20)); auto p = sample_prob_from_scores_overwrite(rng, s); t.bits("sample_prob", p.first); t.num("sample_prob", p.second); break; }
            case 17: { for (int k = 0; k < m; ++k) s.push_back(src.real(-20, 20)); t.num("score_from_scores_overwrite", score_from_scores_overwrite(rng, src.index(m), s)); break; }
            case 18: { std::vector<int> u(m + 1); for (int k = 0; k <= m; ++k) u[k] = k; auto p = sample_pair_from_urn(rng, u); t.bits("pair", p.first); t.bits("pair", p.second); t.bits("urn", sample_from_urn(rng, u)); break; }
            default: { for (int k = 0; k < m; ++k) s.push_back(src.real(-20, 20)); KEEPS(rng, "log_sum_exp", t.num("log_sum_exp", log_sum_exp(s))); scores_to_probs(s); for (float x : s) t.num("scores_to_probs", x); }
        }
    }
    src.nontrivial();
}
#endif
