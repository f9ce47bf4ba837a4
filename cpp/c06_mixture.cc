// C06: mixtures (cached and uncached) against independent mirror groups, after any history.
#include "driven.hpp"
using distributions::VectorFloat;
using distributions::AlignedFloats;
using distributions::MixtureSlave;

// dpd protocol: every value in a mixture is also counted in the shared parameters
template<class A> static void shared_add(A &, const typename A::Value &, rng_t &) {}
template<class A> static void shared_remove(A &, const typename A::Value &, rng_t &) {}
template<class A> static typename A::Value fresh_value(A & a, Src & src) { return a.value(src); }
template<class A> static void sync_keys(A &) {}
template<class A> static bool only_empty(const A &) { return false; }
#if PART == 1
static void sync_keys(Ad<DPD_> & a) {
    a.keys.clear();
    for (auto & i : a.shared.betas) a.keys.push_back(i.first);
    std::sort(a.keys.begin(), a.keys.end());
}
static void shared_add(Ad<DPD_> & a, const uint32_t & v, rng_t & rng) { a.shared.add_value(v, rng); sync_keys(a); }
static void shared_remove(Ad<DPD_> & a, const uint32_t & v, rng_t & rng) { a.shared.remove_value(v, rng); sync_keys(a); }
static uint32_t fresh_value(Ad<DPD_> & a, Src & src) { return src.boolean(1, 3) ? Ad<DPD_>::key(src) : a.value(src); }
static bool only_empty(const Ad<DPD_> &) { return true; }  // its groups are removed once they are empty
#endif

template<class A> struct Mirror {
    typename A::Group g;
    std::vector<typename A::Value> xs;
    Hist h;
};

// extra rounding of a mixture's score_data over its groups' own: the dirichlet-discrete grid keeps running sums
template<class A> static double data_rounding(const A &, const typename A::Shared &, double, const std::vector<Mirror<A>> &) { return 0; }
template<class A> static double asum(const typename A::Shared &, const A &) { return 0; }
#if PART == 1
template<int n> static double asum(const typename distributions::DirichletDiscrete<n>::Shared & s, const Ad<distributions::DirichletDiscrete<n>> &) {
    return Ad<distributions::DirichletDiscrete<n>>::asum(s); }
template<int n> static double data_rounding(const Ad<distributions::DirichletDiscrete<n>> & a, const typename distributions::DirichletDiscrete<n>::Shared & s, double top,
        const std::vector<Mirror<Ad<distributions::DirichletDiscrete<n>>>> & ms) {
    double A = asum(s, a), eA = s.dim * 6e-8 * std::max(top, A), r = 0, each = 0;
    for (int i = 0; i < s.dim; ++i) each += std::fabs(orc::lgam(s.alphas[i]));
    for (auto & m : ms) if (m.xs.size()) {
        double N = m.xs.size();
        r += eA * (orc::log_((A + N) / A) + 1 / A) + 2e-7 * (2 * std::fabs(orc::lgam(A + N)) + each);
    }
    return r * 2;
}
#endif

// values worth scoring: drawn ones, held ones and, for dpd, OTHER
template<class A> static typename A::Value probe(A & a, std::vector<Mirror<A>> & ms, Src & src) {
    if (!ms.empty() && src.boolean()) {
        auto & m = ms[src.index(ms.size())];
        if (!m.xs.empty()) return at(m.xs, src.index(m.xs.size()));
    }
    return a.value(src);
}
#if PART == 1
static uint32_t probe(Ad<DPD_> & a, std::vector<Mirror<Ad<DPD_>>> & ms, Src & src) {
    if (src.boolean(1, 6)) return DPD_::OTHER();
    if (!ms.empty() && src.boolean()) {
        auto & m = ms[src.index(ms.size())];
        if (!m.xs.empty()) return at(m.xs, src.index(m.xs.size()));
    }
    return a.value(src);
}
#endif

template<class A, class Mix> struct World {
    A & a;
    Mix mix;
    std::vector<Mirror<A>> ms;
    rng_t & rng;
    Src & src;

    void check_value(const typename A::Value & v) {
        size_t n = ms.size();
        REQ_EQ(mix.groups().size(), n, "number of groups");
        VectorFloat acc(n + 4);
        std::vector<float> pre(n + 4);
        float base = src.boolean() ? 0 : static_cast<float>(src.integer(-8, 8)) / 4;
        for (size_t i = 0; i < n + 4; ++i) acc[i] = pre[i] = base + (base != 0 ? 0.25f * (i % 5) : 0);
        AlignedFloats view(acc.data(), n);
        mix.score_value(a.shared, v, view, rng);
        for (size_t i = n; i < n + 4; ++i) REQ_EQ(acc[i], pre[i], "score_value wrote past slot " << n);
        size_t one = n ? src.index(n) : 0;
        for (size_t i = 0; i < n; ++i) {
            auto & m = ms[i];
            Sc ref = A::score_value(a.shared, m.xs, m.h, v);
            double omit = omitted_<A>(0, a.shared, v), got = double(acc[i]) - pre[i], own = m.g.score_value(a.shared, v, rng);
            if (ref.tol > 1e200) {
                if (eng::is_neg_inf(own) || own < -60) REQ(got < -40, A::name() << " slot " << i << " scores " << got << " where the group scores " << own);
                continue;
            }
            ref.tol += 3e-7 * (std::fabs(ref.v) + std::fabs(pre[i]) + 1);
            std::string ctx = "slot " + std::to_string(i) + " of " + std::to_string(n) + ", value " + A::show(v) + ", group " + show_all<A>(m.xs);
            REQ_SCORE(got, ref, omit, A::name() << " score_value, " << ctx);
            REQ_NEAR(got, own, 2 * ref.width(), A::name() << " score_value against the group's own, " << ctx);
            if (i == one) {
                double s = mix.score_value_group(a.shared, i, v, rng);
                REQ_SCORE(s, ref, omit, A::name() << " score_value_group, " << ctx);
                REQ_NEAR(s, own, 2 * ref.width(), A::name() << " score_value_group against the group's own, " << ctx);
            }
        }
    }

    void compare_data(double got, const typename A::Shared & s, const char * what, double top) {
        double sum = 0, mag = 0, tol = 0;
        Sc ref;
        double omit = 0;
        for (auto & m : ms) {
            double own = m.g.score_data(s, rng);
            Sc r = A::score_data(s, m.xs, m.h);
            if (r.tol > 1e200) return;
            ref = ref + r;
            omit += omitted_all<A>(s, m.xs);
            sum += own;
            mag += std::fabs(own) + m.xs.size();
            tol += r.tol;
        }
        ref.tol += 2e-7 * mag * (2 + ms.size()) + 1e-6;
        ref.tol += data_rounding(a, s, top, ms);
        REQ_SCORE(got, ref, omit, A::name() << " " << what << " of " << ms.size() << " groups");
        REQ_NEAR(got, sum, 2 * ref.width(), A::name() << " " << what << " against the groups' own");
    }

    void check_data() {
        REQ_EQ(mix.groups().size(), ms.size(), "number of groups");
        compare_data(mix.score_data(a.shared, rng), a.shared, "score_data", 0);
        if (src.boolean(1, 3)) {
            std::vector<typename A::Shared> grid;
            int n = src.integer(0, 5);
            for (int i = 0; i < n; ++i) grid.push_back(src.boolean(1, 4) ? a.shared : a.other_shared(src));
            double top = 0;
            for (auto & g : grid) { top = std::max(top, asum(g, a)); NOTE(src, "grid asum " << asum(g, a) << "; "); }
            VectorFloat out(n + 4, 123.f);
            mix.score_data_grid(grid, AlignedFloats(out.data(), n), rng);
            for (int i = 0; i < n; ++i) compare_data(out[i], grid[i], "score_data_grid", top);
            for (int i = n; i < n + 4; ++i) REQ_EQ(out[i], 123.f, "score_data_grid wrote past its output");
            if (n > 1 && ms.size()) src.label("grid");
        }
    }

    void check_groups() {
        REQ_EQ(mix.groups().size(), ms.size(), "number of groups");
        for (size_t i = 0; i < ms.size(); ++i) {
            a.check_stats(mix.groups(i), ms[i].xs, ms[i].h);
            a.check_stats(ms[i].g, ms[i].xs, ms[i].h);
        }
        mix.validate(a.shared);
    }
};

template<class M, class Mix> static void mixture(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    sync_keys(a);
    World<A, Mix> w{a, Mix(), {}, rng, src};
    auto & ms = w.ms;
    auto load = [&](World<A, Mix> & w, int k0, bool added) {
        A & a = w.a;
        if (!added) w.mix.groups().resize(k0);
        for (int k = 0; k < k0; ++k) {
            w.ms.emplace_back();
            auto & m = w.ms.back();
            m.g.init(a.shared, rng);
            if (added) w.mix.add_group(a.shared, rng); else w.mix.groups(k).init(a.shared, rng);
            int n = src.boolean(1, 3) ? 0 : src.length(0, src.boolean(1, 30) ? 200 : 5);
            if (n > 40) src.label("large group");
            for (int i = 0; i < n; ++i) {
                auto v = fresh_value(a, src);
                shared_add(a, v, rng);
                m.g.add_value(a.shared, v, rng);
                w.mix.groups(k).add_value(a.shared, v, rng);
                m.xs.push_back(v); m.h.ops += 1; m.h.peak = std::max(m.h.peak, A::mag(v));
            }
        }
        NOTE(src, k0 << " groups; ");
        w.mix.init(a.shared, rng);
    };
    // initial groups, loaded before init
    int k0 = src.boolean(1, 10) ? src.length(0, src.boolean(1, 4) ? 300 : 40) : src.length(0, 6);
    bool added = src.boolean(1, 4);  // by add_group, as examples/mixture does, rather than loaded
    if (added) { NOTE(src, "added before init: "); src.label("groups added before init"); }
    load(w, k0, added);
    // another mixture of the same model, with hyperparameters of its own, used in between
    std::unique_ptr<A> b;
    std::unique_ptr<World<A, Mix>> w2;
    if (src.boolean(1, 4)) {
        NOTE(src, "second mixture: ");
        src.label("two mixtures");
        b.reset(new A(src, rng));
        sync_keys(*b);
        w2.reset(new World<A, Mix>{*b, Mix(), {}, rng, src});
        load(*w2, src.length(1, 6), false);
    }
    bool middle = false, removed = false;
    int steps = src.length(1, 40);
    for (int s = 0; s < steps; ++s) {
        size_t n = ms.size();
        std::vector<size_t> empty, full;
        for (size_t i = 0; i < n; ++i) (ms[i].xs.empty() ? empty : full).push_back(i);
        bool can_remove = only_empty(a) ? !empty.empty() : n > 0;
        switch (src.weighted({3, can_remove ? 2 : 0, n ? 8 : 0, full.empty() ? 0 : 5, 4, 1, 1, w2 ? 3 : 0})) {
            case 0: {
                NOTE(src, "add_group; ");
                w.mix.add_group(a.shared, rng);
                ms.emplace_back();
                ms.back().g.init(a.shared, rng);
                break;
            }
            case 1: {
                size_t i = only_empty(a) ? empty[src.index(empty.size())] : src.index(n);
                NOTE(src, "remove_group " << i << " of " << n << "; ");
                if (i + 1 < n) middle = true;
                w.mix.remove_group(a.shared, i);
                ms[i] = ms.back();
                ms.pop_back();
                break;
            }
            case 2: {
                size_t i = src.index(n);
                auto v = fresh_value(a, src);
                NOTE(src, "add " << A::show(v) << " to " << i << "; ");
                shared_add(a, v, rng);
                w.mix.add_value(a.shared, i, v, rng);
                ms[i].g.add_value(a.shared, v, rng);
                ms[i].xs.push_back(v); ms[i].h.ops += 1; ms[i].h.peak = std::max(ms[i].h.peak, A::mag(v));
                break;
            }
            case 3: {
                size_t i = full[src.index(full.size())], j = src.index(ms[i].xs.size());
                typename A::Value v = at(ms[i].xs, j);
                NOTE(src, "remove " << A::show(v) << " from " << i << "; ");
                w.mix.remove_value(a.shared, i, v, rng);
                ms[i].g.remove_value(a.shared, v, rng);
                drop(ms[i].xs, j); ms[i].h.ops += 1;
                shared_remove(a, v, rng);
                removed = true;
                break;
            }
            case 4: {
                if (src.boolean(1, 4)) { NOTE(src, "score_data; "); w.check_data(); }
                else { auto v = probe(a, ms, src); NOTE(src, "score " << A::show(v) << "; "); w.check_value(v); }
                break;
            }
            case 6: {
                // a copy behaves as the original does, and neither follows the other
                NOTE(src, "continue with a copy; ");
                src.label("copied");
                Mix copy(w.mix);
                if (ms.size() && !only_empty(a)) w.mix.remove_group(a.shared, 0); else w.mix.add_group(a.shared, rng);
                if (src.boolean()) w.mix = copy; else { Mix third; std::swap(third, copy); std::swap(w.mix, third); }
                break;
            }
            case 7: {
                NOTE(src, "in the second mixture: ");
                if (src.boolean(1, 4)) { NOTE(src, "score_data; "); w2->check_data(); }
                else { auto v = probe(*b, w2->ms, src); NOTE(src, "score " << A::show(v) << "; "); w2->check_value(v); }
                break;
            }
            default: {
                if (src.boolean()) a.shared = a.other_shared(src);  // hyperparameters changed: init refreshes every cache
                NOTE(src, "init; ");
                w.mix.init(a.shared, rng);
                src.label("re-init");
            }
        }
    }
    w.check_groups();
    w.check_data();
    int probes = src.integer(1, 3);
    for (int i = 0; i < probes; ++i) { auto v = probe(a, ms, src); NOTE(src, "score " << A::show(v) << "; "); w.check_value(v); }
    if (w2) { NOTE(src, "second mixture: "); w2->check_groups(); w2->check_value(probe(*b, w2->ms, src)); }
    if (middle) src.label("group removed from the middle");
    if (removed && ms.size() >= 2) src.nontrivial();
}

#if PART <= 1
#define X(suffix, M, w) \
    TARGET(C06_cached_##suffix, w, "a value was removed and at least two groups remain") { mixture<M, M::FastMixture>(src); } \
    TARGET(C06_small_##suffix, 0.4 * w, "a value was removed and at least two groups remain") { mixture<M, M::SmallMixture>(src); } \
    TARGET(C06_plain_##suffix, 0.3 * w, "a value was removed and at least two groups remain") { mixture<M, MixtureSlave<M>>(src); }
#else
#define X(suffix, M, w) \
    TARGET(C06_plain_##suffix, w, "a value was removed and at least two groups remain") { mixture<M, MixtureSlave<M>>(src); }
#endif
FOR_MODELS
