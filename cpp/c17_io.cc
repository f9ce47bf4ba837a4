// C17: protobuf round trips of reachable states.  C19: base weights of the Dirichlet-process model.
#include "driven.hpp"
#include <distributions/clustering.hpp>

// ---- comparison of dumps: field by field, unordered for the Dirichlet process
template<class Pb> static std::string canon(const Pb & m) { std::string s; m.SerializeToString(&s); return s; }
#if PART == 1
template<class A, class B> static std::string keyed(const A & keys, const B & values, int n) {
    std::vector<std::pair<uint64_t, uint64_t>> v;
    for (int i = 0; i < n; ++i) v.push_back(std::make_pair(keys(i), values(i)));
    std::sort(v.begin(), v.end());
    std::ostringstream o; for (auto & p : v) o << p.first << ":" << p.second << " "; return o.str(); }
static std::string canon(const pb::DirichletProcessDiscrete_Group & m) {
    return std::to_string(m.keys_size()) + "/" + std::to_string(m.values_size()) + " " + keyed([&](int i) { return m.keys(i); }, [&](int i) { return m.values(i); }, std::min(m.keys_size(), m.values_size())); }
static std::string canon(const pb::DirichletProcessDiscrete_Shared & m) {
    auto bits = [&](float x) { uint32_t u; std::memcpy(&u, &x, 4); return u; };
    int n = std::min(m.values_size(), std::min(m.betas_size(), m.counts_size()));
    return std::to_string(m.values_size()) + "/" + std::to_string(m.betas_size()) + "/" + std::to_string(m.counts_size()) + " gamma " + std::to_string(bits(m.gamma())) + " alpha " + std::to_string(bits(m.alpha()))
        + keyed([&](int i) { return m.values(i); }, [&](int i) { return m.counts(i); }, n) + "; " + keyed([&](int i) { return m.values(i); }, [&](int i) { return bits(m.betas(i)); }, n); }
#endif
template<class Pb> static Pb wire(const Pb & m) {  // through bytes, as a file would
    std::string s; REQ(m.SerializeToString(&s), "not serialisable: " << m.InitializationErrorString());
    Pb r; REQ(r.ParseFromString(s), "not parsable"); return r; }

// one piece of machine code for both objects: under -ffast-math two inlined copies may round differently
#define ONE_COPY __attribute__((noipa))
template<class A> ONE_COPY static double data_of(const typename A::Group & g, const typename A::Shared & s, rng_t & rng) { return g.score_data(s, rng); }
template<class A> ONE_COPY static double value_of(const typename A::Group & g, const typename A::Shared & s, const typename A::Value & v, rng_t & rng) { return g.score_value(s, v, rng); }
template<class A> ONE_COPY static void grow(typename A::Group & g, const typename A::Shared & s, const typename A::Value & v, int n, rng_t & rng) { if (n == 1) g.add_value(s, v, rng); else g.add_repeated_value(s, v, n, rng); }
template<class A> ONE_COPY static void shrink(typename A::Group & g, const typename A::Shared & s, const typename A::Value & v, rng_t & rng) { g.remove_value(s, v, rng); }
template<class A> ONE_COPY static void join(typename A::Group & g, const typename A::Shared & s, const typename A::Group & o, rng_t & rng) { g.merge(s, o, rng); }

template<class A> static void same_scores(const A & a, const typename A::Group & g, const typename A::Shared & s, const typename A::Group & h, const typename A::Shared & t, Src & src, rng_t & rng, double slack, const char * what) {
    double x = data_of<A>(g, s, rng), y = data_of<A>(h, t, rng);
    REQ_NEAR(x, y, slack * (10 + std::fabs(x)), A::name() << " score_data " << what);
    for (int i = 0; i < 3; ++i) {
        auto v = a.value(src);
        x = value_of<A>(g, s, v, rng); y = value_of<A>(h, t, v, rng);
        REQ_NEAR(x, y, slack * (10 + std::fabs(x)), A::name() << " score_value of " << A::show(v) << " " << what);
    }
}
template<class A> static double order_slack() { return 0; }   // scores summed in hash order differ in rounding
#if PART == 1
template<> double order_slack<Ad<DPD_>>() { return 3e-5; }
#endif

template<class M> static void group_trip(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    Driven<A> d;
    d.init(a, rng);
    bool removed = false, rep = false;
    int steps = src.boolean(1, 8) ? 0 : src.length(0, src.boolean(1, 25) ? 300 : 20);
    for (int i = 0; i < steps; ++i) d.step(a, src, rng, removed, rep);
    typename A::GroupPb m;
    if (src.boolean(1, 3)) {  // a message that held something else is overwritten
        Driven<A> o; o.init(a, rng);
        for (int i = src.integer(0, 4); i > 0; --i) o.step(a, src, rng, removed, rep);
        o.g.protobuf_dump(m);
    }
    d.g.protobuf_dump(m);
    typename A::Group fresh;
    Driven<A> used;
    typename A::Group * g = &fresh;
    bool dirty = src.boolean();
    if (dirty) {
        used.init(a, rng);
        for (int i = src.integer(1, 8); i > 0; --i) used.step(a, src, rng, removed, rep);
        g = &used.g;
        NOTE(src, "loaded into a used group; ");
    }
    g->protobuf_load(wire(m));
    typename A::GroupPb again;
    g->protobuf_dump(again);
    REQ(canon(again) == canon(m), A::name() << " group dumps " << again.ShortDebugString() << " after loading " << m.ShortDebugString());
    same_scores(a, d.g, a.shared, *g, a.shared, src, rng, order_slack<A>(), "of the loaded group");
    // the same further life
    int more = src.length(0, 10);
    std::vector<typename A::Value> xs = d.xs;
    for (int i = 0; i < more; ++i) {
        int k = src.weighted({4, 2, d.xs.empty() ? 0 : 4, 1});
        if (k == 0) { auto v = a.value(src); grow<A>(d.g, a.shared, v, 1, rng); grow<A>(*g, a.shared, v, 1, rng); d.xs.push_back(v); NOTE(src, "then add " << A::show(v) << "; "); }
        else if (k == 1) { auto v = a.value(src); int n = src.integer(2, 5); grow<A>(d.g, a.shared, v, n, rng); grow<A>(*g, a.shared, v, n, rng);
            for (int j = 0; j < n; ++j) d.xs.push_back(v); }
        else if (k == 2) { size_t j = src.index(d.xs.size()); auto v = at(d.xs, j); shrink<A>(d.g, a.shared, v, rng); shrink<A>(*g, a.shared, v, rng); drop(d.xs, j); NOTE(src, "then remove " << A::show(v) << "; "); }
        else { Driven<A> e; e.init(a, rng); for (int j = src.integer(0, 3); j > 0; --j) e.step(a, src, rng, removed, rep);
            join<A>(d.g, a.shared, e.g, rng); join<A>(*g, a.shared, e.g, rng); for (auto v : e.xs) d.xs.push_back(v); NOTE(src, "then merge " << e.xs.size() << "; "); }
    }
    d.g.protobuf_dump(m); g->protobuf_dump(again);
    REQ(canon(again) == canon(m), A::name() << " loaded group behaves differently: " << again.ShortDebugString() << " vs " << m.ShortDebugString());
    same_scores(a, d.g, a.shared, *g, a.shared, src, rng, order_slack<A>(), "after further updates of the loaded group");
    if (d.xs.size() && dirty) src.nontrivial();
}

template<class A> static void any_shared_history(A &, Src &, rng_t &) {}
#if PART == 1
static void any_shared_history(Ad<DPD_> & a, Src & src, rng_t & rng) {
    int n = src.length(0, 10);
    for (int i = 0; i < n; ++i) {
        if (src.boolean(2, 3) || a.shared.counts.get_total() == 0) { if (a.shared.beta0 > 0) a.shared.add_value(Ad<DPD_>::key(src), rng); }
        else { size_t k = src.index(a.shared.betas.size()); auto it = a.shared.betas.begin(); std::advance(it, k); uint32_t v = it->first; a.shared.remove_value(v, rng); }
    }
    // enough values to use up the leftover mass, which then stays at its minimum
    if (src.boolean(1, 10)) { int many = src.integer(20, 700); NOTE(src, many << " further values; "); for (int i = 0; i < many; ++i) a.shared.add_value(1000 + i * 3, rng); }
    if (a.shared.betas.size() == 0) a.shared.add_value(3, rng);
    if (src.boolean(1, 4)) for (int i = src.integer(1, 3); i > 0; --i) a.shared.counts.add(a.shared.betas.begin()->first, src.boolean() ? 500000000 : 7);
    if (src.boolean(1, 8)) { bool high = false; for (auto & i : a.shared.betas) if (i.first > 0xFFFF0000U) high = true; if (!high && a.shared.gamma < 10) a.shared.realize(rng); }
    a.keys.clear();
    for (auto & i : a.shared.betas) a.keys.push_back(i.first);
    std::sort(a.keys.begin(), a.keys.end());
}
#endif

template<class M> static void shared_trip(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    any_shared_history(a, src, rng);
    typename A::SharedPb m, again;
    if (src.boolean(1, 3)) a.other_shared(src).protobuf_dump(m);
    a.shared.protobuf_dump(m);
    bool dirty = src.boolean();
    A b(src, rng);
    typename A::Shared fresh, *s = dirty ? &b.shared : &fresh;
    if (dirty) { any_shared_history(b, src, rng); NOTE(src, "loaded into a used shared; "); }
    s->protobuf_load(wire(m));
    s->protobuf_dump(again);
    REQ(canon(again) == canon(m), A::name() << " shared dumps " << again.ShortDebugString() << " after loading " << m.ShortDebugString());
    Driven<A> d;
    d.init(a, rng);
    bool removed = false, rep = false;
    for (int i = src.length(0, 10); i > 0; --i) d.step(a, src, rng, removed, rep);
    same_scores(a, d.g, a.shared, d.g, *s, src, rng, order_slack<A>(), "under the loaded shared");
    typename A::Group g, h;
    g.init(a.shared, rng); h.init(*s, rng);
    for (size_t i = 0; i < d.xs.size(); ++i) { grow<A>(g, a.shared, at(d.xs, i), 1, rng); grow<A>(h, *s, at(d.xs, i), 1, rng); }
    typename A::GroupPb x, y;
    g.protobuf_dump(x); h.protobuf_dump(y);
    REQ(canon(x) == canon(y), A::name() << " groups under the loaded shared differ");
#if PART == 1
    if (std::is_same<A, Ad<DPD_>>::value) {
        auto & p = *reinterpret_cast<DPD_::Shared *>(&a.shared); auto & q = *reinterpret_cast<DPD_::Shared *>(s);
        REQ_NEAR(p.beta0, q.beta0, 1e-6 * (40 + p.betas.size()), "dpd beta0 of the loaded shared");
        REQ(q.beta0 >= 0, "dpd beta0 negative after loading: " << q.beta0);
        // messages do not say whether any mass was left (KNOWN_FINDINGS: dpd-leftover-at-minimum)
        if (p.beta0 > 0 && q.beta0 == 0) src.label("known:dpd-leftover-at-minimum");
        REQ_EQ(static_cast<double>(p.counts.get_total()), static_cast<double>(q.counts.get_total()), "dpd total reference count");
        // further reference counting
        if (p.betas.size()) {
            uint32_t v = p.betas.begin()->first;
            p.add_value(v, rng); q.add_value(v, rng);
            while (p.counts.get_count(v) > 0 && p.counts.get_count(v) < 50) { p.remove_value(v, rng); q.remove_value(v, rng); REQ_EQ(p.betas.contains(v), q.betas.contains(v), "dpd value " << v << " after removals"); }
            REQ_NEAR(p.beta0, q.beta0, 1e-6 * (40 + p.betas.size()), "dpd beta0 after removing a value from the loaded shared");
        }
    }
#endif
    if (dirty) src.nontrivial();
}

#define X(suffix, M, w) \
    TARGET(C17_group_##suffix, w, "a non-empty group loaded into a used one") { group_trip<M>(src); } \
    TARGET(C17_shared_##suffix, w, "loaded into a used object") { shared_trip<M>(src); }
FOR_MODELS

#if PART == 0
TARGET(C17_clustering, 1, "any case") {
    typedef distributions::Clustering<int> C;
    if (src.boolean()) {
        C::PitmanYor p, q;
        p.alpha = src.f(1e-3, 1e4); p.d = src.boolean(1, 4) ? 0 : src.real(0, 0.999);
        q.alpha = 5; q.d = 0.5;
        pb::Clustering m, n;
        p.protobuf_dump(*m.mutable_pitman_yor());
        auto w = wire(m);
        REQ(w.has_pitman_yor() && !w.has_low_entropy(), "which model");
        q.protobuf_load(w.pitman_yor());
        REQ_EQ(p.alpha, q.alpha, "PitmanYor alpha"); REQ_EQ(p.d, q.d, "PitmanYor d");
        std::vector<int> c; for (int i = src.integer(0, 6); i > 0; --i) c.push_back(src.small(0, 30));
        REQ_EQ(p.score_counts(c), q.score_counts(c), "PitmanYor score");
        rng_t r1(7), r2(7);
        int n1 = src.integer(0, 30);
        REQ(p.sample_assignments(n1, r1) == q.sample_assignments(n1, r2), "PitmanYor sample");
    } else {
        C::LowEntropy p, q;
        p.dataset_size = src.boolean(1, 4) ? 2147483647 - src.small(0, 100) : src.small(1, 100000);
        q.dataset_size = 3;
        pb::Clustering m;
        p.protobuf_dump(*m.mutable_low_entropy());
        q.protobuf_load(wire(m).low_entropy());
        REQ_EQ(p.dataset_size, q.dataset_size, "LowEntropy dataset_size");
    }
    src.nontrivial();
}
#endif

#if PART == 1
// ---------------------------------------------------------------- C19
struct Weights {
    DPD_::Shared s;
    std::map<uint32_t, int64_t> refs;
    int adds = 0, ops = 0;
    bool realized = false;
    std::map<uint32_t, float> betas() const { std::map<uint32_t, float> r; for (auto & i : s.betas) r[i.first] = i.second; return r; }
    void check(const char * after) const {
        REQ(s.beta0 >= 0 && s.beta0 <= 1, "beta0 = " << eng::fmt(s.beta0) << " after " << after);
        double sum = s.beta0;
        size_t n = 0;
        for (auto & i : s.betas) {
            ++n;
            REQ(i.second > 0 && i.second <= 1, "weight " << eng::fmt(i.second) << " of " << i.first << " after " << after);
            REQ(refs.count(i.first), "value " << i.first << " has a weight but no reference after " << after);
            sum += i.second;
        }
        REQ_EQ(n, refs.size(), "number of weights after " << after);
        int64_t total = 0;
        for (auto & r : refs) { REQ(s.betas.contains(r.first), "referenced value " << r.first << " has no weight after " << after); REQ_EQ(int64_t(s.counts.get_count(r.first)), r.second, "references of " << r.first); total += r.second; }
        size_t m = 0; for (auto & i : s.counts) { (void)i; ++m; }
        REQ_EQ(m, refs.size(), "number of reference counts after " << after);
        REQ_EQ(int64_t(s.counts.get_total()), total, "total reference count after " << after);
        // each new value may keep beta0 at the minimum weight of 1e-6
        REQ_NEAR(sum, 1.0, 1.2e-6 * adds + 1e-6 + 1e-7 * ops, "sum of the weights after " << after);
    }
};
static void add(Weights & w, uint32_t v, rng_t & rng) {
    auto before = w.betas(); float b0 = w.s.beta0;
    bool fresh = !w.refs.count(v);
    w.s.add_value(v, rng);
    w.refs[v] += 1; ++w.ops; w.adds += fresh;
    auto after = w.betas();
    for (auto & b : before) REQ_EQ(after[b.first], b.second, "weight of " << b.first << " moved when " << v << " was added");
    if (fresh) REQ_NEAR(double(b0) - w.s.beta0, after[v], 1.1e-6 + 1e-6 * b0, "the weight of a new value is not taken out of beta0 (" << eng::fmt(b0) << " before, " << eng::fmt(w.s.beta0) << " after)");
    else REQ_EQ(w.s.beta0, b0, "beta0 moved when a known value was added");
    w.check("add_value");
}
static void remove(Weights & w, uint32_t v, rng_t & rng) {
    auto before = w.betas(); float b0 = w.s.beta0;
    w.s.remove_value(v, rng);
    bool last = --w.refs[v] == 0; ++w.ops;
    if (last) w.refs.erase(v);
    auto after = w.betas();
    for (auto & b : before) if (!(last && b.first == v)) REQ_EQ(after[b.first], b.second, "weight of " << b.first << " moved when " << v << " was removed");
    if (last) REQ_NEAR(w.s.beta0, std::min(1.0, double(b0) + before[v]), 2e-7, "the weight of a removed value is not returned to beta0");
    else REQ_EQ(w.s.beta0, b0, "beta0 moved when a value with references left was removed");
    w.check("remove_value");
}
TARGET(C19_weights, 1, "a value lost its last reference") {
    rng_t rng(1 + src.draw(1000000));
    Weights w;
    w.s.gamma = src.f(0.01, 200); w.s.alpha = src.f(0.1, 10); w.s.beta0 = 1; w.s.betas.clear(); w.s.counts.clear();
    NOTE(src, "gamma=" << w.s.gamma << "; ");
    int n = src.length(1, 60);
    bool lost = false, high = false;
    for (int i = 0; i < n; ++i) {
        int k = src.weighted({6, 3, w.refs.empty() ? 0 : 6, w.s.gamma < 20 ? 1 : 0});
        if (k == 1 && w.refs.empty()) k = 0;
        if (k == 0) {
            uint32_t v = Ad<DPD_>::key(src);
            if (w.s.beta0 == 0 && !w.refs.count(v)) continue;
            if (v > 0xFFFF0000U) high = true;
            NOTE(src, "add " << v << "; "); add(w, v, rng);
        } else if (k == 1 || k == 2) {
            auto it = w.refs.begin(); std::advance(it, src.index(w.refs.size()));
            uint32_t v = it->first;
            if (k == 1) { NOTE(src, "add " << v << "; "); add(w, v, rng); }
            else { NOTE(src, "remove " << v << "; "); if (it->second == 1) lost = true; remove(w, v, rng); }
        } else if (!high && src.boolean(1, 3)) {
            NOTE(src, "realize; ");
            auto before = w.betas(); float b0 = w.s.beta0; auto refs = w.refs;
            w.s.realize(rng);
            w.adds += w.s.betas.size() - before.size(); w.ops += w.s.betas.size();
            REQ_EQ(w.s.beta0, 0.f, "beta0 after realize");
            REQ(w.s.betas.size() <= 10000, "realize made " << w.s.betas.size() << " values");
            auto after = w.betas();
            uint32_t top = before.empty() ? 0 : before.rbegin()->first + 1;
            for (auto & b : before) REQ_EQ(after[b.first], b.second, "weight of " << b.first << " moved in realize");
            double fresh = 0;
            for (auto & b : after) if (!before.count(b.first)) { REQ(b.first >= top, "realize made the value " << b.first << " below " << top); fresh += b.second; refs[b.first] = 1; }
            if (b0 == 0) REQ_EQ(after.size(), before.size(), "realize made values out of no mass");
            REQ_NEAR(fresh, b0, 1.2e-6 * (after.size() - before.size()) + 1e-6, "mass of the realized values");
            w.refs = refs;
            w.check("realize");
            src.label("realized");
            if (after.size() > 500) break;
        }
    }
    if (lost) src.nontrivial();
}
// realize near its limit of 10000 values, and beyond
TARGET(C19_realize_large, 0.004, "the limit on the number of values was reached") {
    rng_t rng(1 + src.draw(1000000));
    int known = src.boolean(3, 4) ? src.integer(9990, 10010) : src.integer(0, 20000);
    uint32_t step = src.small(1, 5);
    DPD_::Shared s;
    s.gamma = src.f(0.01, 5000); s.alpha = 1; s.beta0 = src.boolean(1, 5) ? 0 : src.f(1e-5, 1); s.betas.clear(); s.counts.clear();
    if (known == 0) s.beta0 = 1;
    float b0 = s.beta0, each = (1 - b0) / std::max(known, 1);
    each = std::max(each, 1e-9f);
    for (int i = 0; i < known; ++i) { s.betas.add(i * step, each); s.counts.add(i * step); }
    NOTE(src, known << " values, beta0=" << eng::fmt(b0) << " gamma=" << s.gamma << "; ");
    s.realize(rng);
    REQ_EQ(s.beta0, 0.f, "beta0 after realize");
    int made = int(s.betas.size()) - known;
    REQ(made >= 0 && made <= std::max(10000 - known, 1), "realize made " << made << " values on top of " << known);
    REQ((made > 0) == (b0 > 0), "realize made " << made << " values of the weight " << eng::fmt(b0));
    double fresh = 0;
    for (auto & b : s.betas) {
        REQ(b.second > 0 && b.second <= 1 + 1e-5f, "weight " << eng::fmt(b.second));
        REQ_EQ(int64_t(s.counts.get_count(b.first)), int64_t(1), "references of " << b.first);
        if (known && b.first <= (known - 1) * step) REQ_EQ(b.second, each, "weight of " << b.first << " moved in realize");
        else fresh += b.second;
    }
    for (int i = 0; i < known; ++i) REQ(s.betas.contains(i * step), "realize lost the value " << i * step);
    REQ_EQ(int64_t(s.counts.get_total()), int64_t(s.betas.size()), "total reference count");
    REQ_NEAR(fresh, b0, 1.2e-6 * made + 1e-6, "mass of the realized values");
    if (known + made >= 10000) src.nontrivial();
}
// the weight of a new value is a Beta(1, gamma) share of what is left
TARGET(C19_sticks, 0.003, "always") {
    float gamma = src.f(0.05, 100);
    int known = src.integer(0, 4);
    uint32_t seed = 1 + src.draw(2000000000);
    NOTE(src, "gamma=" << gamma << " known=" << known << " seed=" << seed << "; ");
    src.nontrivial();
    auto run = [&](uint32_t sd, int n) {
        rng_t rng(sd);
        std::vector<double> lo, hi;
        DPD_::Shared s;
        s.gamma = gamma; s.alpha = 1;
        for (int i = 0; i < n; ++i) {
            s.beta0 = 1; s.betas.clear(); s.counts.clear();
            for (int k = 0; k < known; ++k) s.add_value(k, rng);
            double b0 = s.beta0;
            s.add_value(77, rng);
            // clipped to at least the minimum weight, and blurred by the rounding of small leftovers
            double b = s.betas.get(77), e = 3e-6 / b0 + 1e-6, x = b / b0;
            lo.push_back(x - e <= 1e-5 ? 0 : orc::beta_cdf(x - e, 1, gamma));
            hi.push_back(x + e >= 1 ? 1 : orc::beta_cdf(x + e, 1, gamma));
        }
        return orc::ks_interval(lo, hi);
    };
    double p = run(seed, 1000);
    if (p < 2e-3) {
        double p2 = run((seed ^ 0x2545F491u) % 2147483646 + 1, 10000);
        if (p2 < 1e-5) { double p3 = run((seed ^ 0x1B873593u) % 2147483646 + 1, 10000); REQ(p3 > 1e-7, "weights of new values do not follow Beta(1, " << gamma << "): p values " << p << ", " << p2 << ", " << p3); }
    }
}
#endif
