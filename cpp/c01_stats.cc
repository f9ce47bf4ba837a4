// C01: group statistics are a function of the held multiset. C02: merge. Model-based histories.
#include "driven.hpp"

template<class A> static void check_scores(const A & a, const typename A::Group & g,
        const std::vector<typename A::Value> & xs, const Hist & h, Src & src, rng_t & rng) {
    REQ_SCORE(g.score_data(a.shared, rng), A::score_data(a.shared, xs, h), omitted_all<A>(a.shared, xs), A::name() << " score_data of " << show_all<A>(xs));
    auto v = xs.empty() || src.boolean() ? a.value(src) : at(xs, src.index(xs.size()));
    REQ_SCORE(g.score_value(a.shared, v, rng), A::score_value(a.shared, xs, h, v), omitted_<A>(0, a.shared, v),
           A::name() << " score_value of " << A::show(v) << " given " << show_all<A>(xs));
}

template<class M> static void stats(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    Driven<A> d;
    d.init(a, rng);
    a.check_stats(d.g, d.xs, d.h);
    int steps = src.length(1, src.boolean(1, 40) ? 800 : 60);
    bool removed = false, rep = false;
    for (int i = 0; i < steps; ++i) {
        d.step(a, src, rng, removed, rep);
        a.check_stats(d.g, d.xs, d.h);
        if (src.boolean(1, 6)) check_scores(a, d.g, d.xs, d.h, src, rng);
    }
    // re-adding the held values to a fresh group, in another order, gives the same group
    Driven<A> e;
    e.init(a, rng);
    std::vector<typename A::Value> order = d.xs;
    for (size_t i = order.size(); i > 1; --i) { size_t j = src.index(i); auto t = at(order, i - 1); order[i - 1] = at(order, j); order[j] = t; }
    for (auto v : order) e.add(a, v, rng);
    a.check_stats(e.g, d.xs, e.h);
    check_scores(a, d.g, d.xs, d.h, src, rng);
    // emptying the group leaves an empty group
    if (src.boolean(1, 3)) {
        while (!d.xs.empty()) { d.remove(a, d.xs.size() - 1, rng); }
        a.check_stats(d.g, d.xs, d.h);
        // a long history of rounding may remain in real-valued statistics, bounded by d.h
        check_scores(a, d.g, d.xs, d.h, src, rng);
        src.label("emptied");
    }
    // init on a used group resets it
    if (src.boolean(1, 4)) { d.init(a, rng); Hist none; a.check_stats(d.g, d.xs, none); src.label("re-init"); }
    if (removed) src.label("removal");
    if (rep) src.label("repeat-on-nonempty");
    if (removed && steps >= 4) src.nontrivial();
}

template<class M> static void merge(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    int n = src.integer(2, 4);
    std::vector<Driven<A>> gs(n);
    bool removed = false, rep = false;
    for (int i = 0; i < n; ++i) {
        gs[i].init(a, rng);
        NOTE(src, "group " << i << ": ");
        int steps = src.boolean(1, 5) ? 0 : src.length(0, 14);
        for (int k = 0; k < steps; ++k) gs[i].step(a, src, rng, removed, rep);
        if (gs[i].xs.empty()) src.label("empty-operand");
    }
    int merges = src.integer(1, 4);
    bool interesting = false;
    for (int k = 0; k < merges; ++k) {
        int i = src.index(n), j = src.index(n - 1);
        if (j >= i) ++j;
        NOTE(src, "merge " << j << " into " << i << "; ");
        if (!gs[i].xs.empty() && !gs[j].xs.empty()) interesting = true;
        gs[i].g.merge(a.shared, gs[j].g, rng);
        for (auto v : std::vector<typename A::Value>(gs[j].xs)) gs[i].xs.push_back(v);
        gs[i].h.ops += gs[j].h.ops + 1;
        gs[i].h.peak = std::max(gs[i].h.peak, gs[j].h.peak);
        if (gs[i].xs.size() > 400) break;
        a.check_stats(gs[i].g, gs[i].xs, gs[i].h);
        a.check_stats(gs[j].g, gs[j].xs, gs[j].h);
        check_scores(a, gs[i].g, gs[i].xs, gs[i].h, src, rng);
        check_scores(a, gs[j].g, gs[j].xs, gs[j].h, src, rng);
        if (src.boolean(2, 3)) {  // merged groups keep working
            int steps = src.integer(1, 4);
            for (int s = 0; s < steps; ++s) gs[i].step(a, src, rng, removed, rep);
            a.check_stats(gs[i].g, gs[i].xs, gs[i].h);
            check_scores(a, gs[i].g, gs[i].xs, gs[i].h, src, rng);
        }
    }
    if (interesting) src.nontrivial();
}

// Large groups: a few calls with large repetition counts, where products and sums of counts grow big.
template<class M> static void big(Src & src, bool merging) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    const int n = merging ? 2 : 1, cap = sizeof(typename A::Value) > 8 ? 10000 : 120000;
    std::vector<Driven<A>> gs(n);
    double mass = 0;
    for (int i = 0; i < n; ++i) {
        auto & d = gs[i];
        d.init(a, rng);
        int calls = src.integer(1, 3);
        NOTE(src, "group " << i << ": ");
        for (int k = 0; k < calls; ++k) {
            auto v = a.value(src);
            int64_t c = src.boolean() ? src.integer(cap / 3, cap) : static_cast<int64_t>(src.logreal(2, cap));
            if (A::discrete && A::mag(v) > 1) c = std::min<int64_t>(c, 1 + 300000000.0 / A::mag(v));
            NOTE(src, "add " << A::show(v) << " x" << c << "; ");
            d.g.add_repeated_value(a.shared, v, c, rng);
            d.xs.insert(d.xs.end(), c, v);
            d.h.ops += 1; d.h.peak = std::max(d.h.peak, A::mag(v)); d.h.rep = std::max<double>(d.h.rep, c);
        }
        for (int k = src.integer(0, 3); k > 0 && d.xs.size() > 2; --k) {
            size_t j = src.index(d.xs.size());
            NOTE(src, "remove " << A::show(at(d.xs, j)) << "; ");
            d.remove(a, j, rng);
        }
        a.check_stats(d.g, d.xs, d.h);
        mass = std::max<double>(mass, d.xs.size());
    }
    auto & d = gs[0];
    if (merging) {
        NOTE(src, "merge; ");
        d.g.merge(a.shared, gs[1].g, rng);
        d.xs.insert(d.xs.end(), gs[1].xs.begin(), gs[1].xs.end());
        d.h.ops += gs[1].h.ops + 1; d.h.peak = std::max(d.h.peak, gs[1].h.peak); d.h.rep = std::max(d.h.rep, gs[1].h.rep);
        a.check_stats(gs[1].g, gs[1].xs, gs[1].h);
        a.check_stats(d.g, d.xs, d.h);
    }
    if (A::discrete) check_scores(a, d.g, d.xs, d.h, src, rng);
    if (d.xs.size() > 2000) src.nontrivial();
}

#if PART == 1
// Count models may go into debt: values removed before they are added (documented for dpd groups).
static void debt_dpd(Src & src) {
    typedef Ad<DPD_> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    A::Group g;
    g.init(a.shared, rng);
    std::map<A::Value, int> c;
    bool neg = false;
    int steps = src.length(1, 40);
    for (int i = 0; i < steps; ++i) {
        auto v = a.value(src);
        if (src.boolean()) { g.add_value(a.shared, v, rng); ++c[v]; } else { g.remove_value(a.shared, v, rng); --c[v]; }
        if (c[v] < 0) neg = true;
    }
    int total = 0, nonzero = 0;
    for (auto & p : c) {
        REQ_EQ(g.counts.get_count(p.first), p.second, "count of " << p.first);
        total += p.second; nonzero += p.second != 0;
    }
    REQ_EQ(g.counts.get_total(), total, "total");
    int seen = 0;
    for (auto & p : g.counts) { REQ(p.second != 0, "zero entry kept for " << p.first); ++seen; }
    REQ_EQ(seen, nonzero, "number of stored entries");
    if (neg) src.nontrivial();
}
#endif

#define X(suffix, M, w) \
    TARGET(C01_##suffix, w, "history of at least 4 steps with a removal; all statistics recomputed after every step") { stats<M>(src); } \
    TARGET(C02_##suffix, w, "a merge of two non-empty groups") { merge<M>(src); } \
    TARGET(C01_big_##suffix, 0.002, "more than 2000 values held") { big<M>(src, false); } \
    TARGET(C02_big_##suffix, 0.002, "more than 2000 values held") { big<M>(src, true); }
FOR_MODELS
#if PART == 1
TARGET(C01_debt_dpd, 0.5, "some count goes negative on the way") { debt_dpd(src); }
#endif
