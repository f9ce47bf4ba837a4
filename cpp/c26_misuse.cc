// C26: in a checked build (DIST_DEBUG_LEVEL=3, DIST_THROW_ON_ERROR, as the Python modules are built) a call outside an
// operation's documented domain raises an error and leaves the object as it was, and calls within the domain never raise.
#include "driven.hpp"
#include <numeric>
#include <stdexcept>
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
#include <distributions/sparse.hpp>
#include <distributions/special.hpp>
using distributions::VectorFloat;
using distributions::AlignedFloats;
using distributions::MixtureSlave;

template<class F> static bool raises(F f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
#define MUST_RAISE(expr, what) REQ(raises([&] { expr; }), "no error from " #expr ": " << what)
template<class Pb> static std::string bytes(const Pb & m) { return m.SerializeAsString(); }
template<class A> static std::string dump(const typename A::Group & g) { typename A::GroupPb m; g.protobuf_dump(m); return bytes(m); }
template<class A> static std::string dump_shared(const typename A::Shared & s) { typename A::SharedPb m; s.protobuf_dump(m); return bytes(m); }
static size_t beyond(size_t n, Src & src) { return src.boolean() ? n : n + src.small(1, 1000000); }

// values outside the model's support: bad(a, src, v) makes one, if there is any
template<class A> static bool bad_value(const A &, Src &, typename A::Value &, bool) { return false; }
#if PART == 1
template<int n> static bool bad_value(const Ad<distributions::DirichletDiscrete<n>> & a, Src & src, int & v, bool) { v = src.boolean(1, 3) ? -1 - src.small(0, 1000000) : beyond(a.shared.dim, src); return true; }
static bool bad_value(const Ad<DPD_> & a, Src & src, uint32_t & v, bool score) {
    if (score) return false;
    if (src.boolean(1, 3)) { v = DPD_::OTHER(); return true; }
    v = src.boolean() ? src.small(0, 100) : src.draw(0xFFFFFFFEU);
    return !a.shared.betas.contains(v); }
#endif
#if PART >= 2
template<int n> static bool bad_value(const Ad<distributions::NormalInverseWishart<n>> & a, Src & src, typename distributions::NormalInverseWishart<n>::Value & v, bool score) {
    if (n != -1 || score) return false;  // scoring leaves the check to Eigen, which aborts
    int d = a.shared.mu.size(), e = src.integer(1, 6);
    if (e == d) ++e;
    v.resize(e); for (int i = 0; i < e; ++i) v[i] = src.real(-2, 2);
    return true; }
#endif

template<class M> static void group(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    Driven<A> d;
    d.init(a, rng);
    bool removed = false, rep = false;
    for (int i = src.length(0, 12); i > 0; --i) d.step(a, src, rng, removed, rep);
    std::string before = dump<A>(d.g), shared = dump_shared<A>(a.shared);
    typename A::Value v;
    if (bad_value(a, src, v, false)) {
        NOTE(src, "bad value " << A::show(v) << "; ");
        MUST_RAISE(d.g.add_value(a.shared, v, rng), A::show(v));
        MUST_RAISE(d.g.remove_value(a.shared, v, rng), A::show(v));
        if (src.boolean()) MUST_RAISE(d.g.add_repeated_value(a.shared, v, 1 + src.small(0, 5), rng), A::show(v));
        src.nontrivial();
    }
    if (bad_value(a, src, v, true)) {  // dd only
        MUST_RAISE(d.g.score_value(a.shared, v, rng), A::show(v));
        src.nontrivial();
    }
    REQ(before == dump<A>(d.g), A::name() << " group changed by a call that raised");
    REQ(shared == dump_shared<A>(a.shared), A::name() << " shared changed by a call that raised");
    // the rest of its life is unharmed
    for (int i = src.length(0, 6); i > 0; --i) d.step(a, src, rng, removed, rep);
    a.check_stats(d.g, d.xs, d.h);
}

template<class M, class Mix> static void mixture(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    Mix mix;
    struct Item { size_t group; typename A::Value v; };
    std::vector<Item> items;
    size_t n = src.length(1, 6);
    for (size_t k = 0; k < n; ++k) mix.add_group(a.shared, rng);
    mix.init(a.shared, rng);
    std::vector<typename A::Value> probes;
    for (int i = 0; i < 3; ++i) probes.push_back(a.value(src));
    auto snapshot = [&]() {
        std::ostringstream o;
        for (auto & g : mix.groups()) { auto s = dump<A>(g); o << s.size() << ":" << s << ";"; }
        VectorFloat acc(n, 0.f);
        for (size_t p = 0; p < probes.size(); ++p) {
            typename A::Value v = probes[p];
            AlignedFloats view(acc.data(), n);
            mix.score_value(a.shared, v, view, rng);
            for (size_t i = 0; i < n; ++i) o << eng::fmt(acc[i]) << " " << eng::fmt(mix.score_value_group(a.shared, i, v, rng)) << " ";
        }
        o << eng::fmt(mix.score_data(a.shared, rng));
        return o.str();
    };
    int steps = src.length(1, 16);
    for (int s = 0; s < steps; ++s) {
        if (src.boolean(2, 3)) {
            if (items.empty() || src.boolean(2, 3)) { Item it = {src.index(n), a.value(src)}; NOTE(src, "add " << A::show(it.v) << " to " << it.group << "; "); mix.add_value(a.shared, it.group, it.v, rng); items.push_back(it); }
            else { size_t j = src.index(items.size()); NOTE(src, "remove " << j << "; "); mix.remove_value(a.shared, items[j].group, items[j].v, rng); items[j] = items.back(); items.pop_back(); }
            continue;
        }
        std::string before = snapshot();
        auto v = a.value(src);
        size_t far = beyond(n, src);
        VectorFloat other(n + (n && src.boolean() ? -1 : src.integer(1, 5)), 0.f);
        AlignedFloats wrong(other.data(), other.size());
        int k = src.integer(0, 7);
        NOTE(src, "misuse " << k << "; ");
        switch (k) {
            case 0: MUST_RAISE(mix.add_value(a.shared, far, v, rng), "group " << far << " of " << n); break;
            case 1: MUST_RAISE(mix.remove_value(a.shared, far, v, rng), "group " << far << " of " << n); break;
            case 2: MUST_RAISE(mix.remove_group(a.shared, far), "group " << far << " of " << n); break;
            case 3: MUST_RAISE(mix.score_value_group(a.shared, far, v, rng), "group " << far << " of " << n); break;
            case 4: MUST_RAISE(mix.score_value(a.shared, v, wrong, rng), other.size() << " slots for " << n << " groups");
                    for (auto x : other) REQ_EQ(x, 0.f, "score_value raised, but wrote a score");
                    break;
            case 5: MUST_RAISE(mix.groups(far), "group " << far << " of " << n); break;
            case 6: { std::vector<typename A::Shared> grid(other.size() + (src.boolean() ? 1 : 2), a.shared);
                      MUST_RAISE(mix.score_data_grid(grid, wrong, rng), other.size() << " slots for " << grid.size() << " shareds"); break; }
            default: {
                typename A::Value w;
                if (bad_value(a, src, w, false)) {
                    size_t i = src.index(n);
                    MUST_RAISE(mix.add_value(a.shared, i, w, rng), A::show(w));
                    MUST_RAISE(mix.remove_value(a.shared, i, w, rng), A::show(w));
                }
                if (bad_value(a, src, w, true)) {
                    size_t i = src.index(n);
                    VectorFloat acc(n, 0.f);
                    MUST_RAISE(mix.score_value(a.shared, w, AlignedFloats(acc.data(), n), rng), A::show(w));
                    MUST_RAISE(mix.score_value_group(a.shared, i, w, rng), A::show(w));
                    src.label("value out of bounds");
                }
            }
        }
        std::string after = snapshot();
        REQ(before == after, A::name() << " mixture changed by a call that raised (dumps and scores differ)");
        mix.validate(a.shared);
        if (!items.empty()) src.nontrivial();
    }
    mix.validate(a.shared);
#if PART <= 1
    if (std::is_same<Mix, typename M::FastMixture>::value) {  // groups changed behind the mixture's back
        NOTE(src, "groups changed without init; ");
        bool grow = src.boolean();
        if (grow) mix.groups().push_back(mix.groups()[0]); else mix.groups().pop_back();
        MUST_RAISE(mix.validate(a.shared), mix.groups().size() << " groups with scores for " << n);
        mix.init(a.shared, rng);
        mix.validate(a.shared);
    }
#endif
}

#if PART <= 1
#define X(suffix, M, w) \
    TARGET(C26_mixture_##suffix, w, "a mixture holding values survived a misuse") { int k = src.integer(0, 2); if (k == 0) mixture<M, M::FastMixture>(src); else if (k == 1) mixture<M, M::SmallMixture>(src); else mixture<M, MixtureSlave<M>>(src); }
#else
#define X(suffix, M, w) \
    TARGET(C26_mixture_##suffix, w, "a mixture holding values survived a misuse") { mixture<M, MixtureSlave<M>>(src); }
#endif
FOR_MODELS
#undef X
#if PART == 1 || PART == 2
#define X(suffix, M, w) TARGET(C26_group_##suffix, w, "an invalid value was tried") { group<M>(src); }
FOR_MODELS
#undef X
#endif

#if PART == 0
TARGET(C26_remove_nich, 0.3, "always") {
    typedef Ad<NICH_> A;
    rng_t rng(1);
    A a(src, rng);
    NICH_::Group g;
    g.init(a.shared, rng);
    std::vector<float> xs;
    for (int i = src.length(0, 5); i > 0; --i) { xs.push_back(a.value(src)); g.add_value(a.shared, xs.back(), rng); }
    while (!xs.empty()) { g.remove_value(a.shared, xs.back(), rng); xs.pop_back(); }
    MUST_RAISE(g.remove_value(a.shared, a.value(src), rng), "an empty group");
    src.nontrivial();
}

typedef distributions::Clustering<int> C;
template<class Mix, class Model> static void driver(Src & src, const Model & model) {
    Mix m;
    int n = src.length(0, 8), empties = 1 + src.small(0, 3);
    for (int i = 0; i < n; ++i) m.counts().push_back(1 + src.small(0, 30));
    for (int i = 0; i < empties; ++i) m.counts().insert(m.counts().begin() + src.index(m.counts().size() + 1), 0);
    m.init(model);
    auto snapshot = [&]() {
        std::ostringstream o;
        for (auto c : m.counts()) o << c << " ";
        std::set<size_t> e(m.empty_groupids().begin(), m.empty_groupids().end());
        for (auto i : e) o << "e" << i << " ";
        o << m.sample_size() << ": ";
        VectorFloat s(m.counts().size());
        m.score_value(model, s);
        for (auto x : s) o << eng::fmt(x) << " ";
        return o.str();
    };
    int steps = src.length(1, 12);
    for (int i = 0; i < steps; ++i) {
        size_t size = m.counts().size();
        std::vector<size_t> empty, full;
        for (size_t j = 0; j < size; ++j) (m.counts(j) ? full : empty).push_back(j);
        if (src.boolean()) {
            if (full.empty() || src.boolean(2, 3)) m.add_value(model, src.index(size), 1 + src.small(0, 3));
            else { size_t g = src.pick(full); m.remove_value(model, g, src.boolean() ? m.counts(g) : 1); }
            continue;
        }
        std::string before = snapshot();
        int k = src.integer(0, 6);
        NOTE(src, "misuse " << k << "; ");
        switch (k) {
            case 0: MUST_RAISE(m.add_value(model, src.index(size), 0), "zero items"); break;
            case 1: { size_t g = beyond(size, src); MUST_RAISE(m.add_value(model, g, 1), "group " << g << " of " << size); break; }
            case 2: if (!full.empty()) { size_t g = src.pick(full); MUST_RAISE(m.remove_value(model, g, 0), "zero items"); } break;
            case 3: { size_t g = beyond(size, src); MUST_RAISE(m.remove_value(model, g, 1), "group " << g << " of " << size); break; }
            case 4: { size_t g = src.pick(empty); MUST_RAISE(m.remove_value(model, g, 1), "an empty group"); break; }
            case 5: if (!full.empty()) { size_t g = src.pick(full); MUST_RAISE(m.remove_value(model, g, m.counts(g) + 1 + src.small(0, 5)), "more than the group holds"); } break;
            default: { VectorFloat s(size + (src.boolean() ? 1 : -1), 0.f); MUST_RAISE(m.score_value(model, s), s.size() << " slots for " << size << " groups"); }
        }
        REQ_EQ(snapshot(), before, "the driver after a call that raised");
        if (!full.empty()) src.nontrivial();
    }
}
TARGET(C26_driver_py, 1, "a driver holding items survived a misuse") { C::PitmanYor p; p.alpha = src.f(0.01, 100); p.d = src.real(0, 0.99); driver<C::PitmanYor::Mixture>(src, p); }
TARGET(C26_driver_le, 1, "a driver holding items survived a misuse") { C::LowEntropy p; p.dataset_size = 10000; driver<C::LowEntropy::Mixture>(src, p); }

TARGET(C26_init_driver, 0.3, "always") {  // a driver needs an empty group
    C::PitmanYor p; p.alpha = 1; p.d = 0.1;
    C::PitmanYor::Mixture m; C::LowEntropy::Mixture l; C::LowEntropy q; q.dataset_size = 10000;
    for (int i = src.length(0, 8); i > 0; --i) { int c = 1 + src.small(0, 30); m.counts().push_back(c); l.counts().push_back(c); }
    MUST_RAISE(m.init(p), "no empty group");
    MUST_RAISE(l.init(q), "no empty group");
    m.counts().push_back(0); l.counts().push_back(0);
    m.init(p); l.init(q);
    src.nontrivial();
}

TARGET(C26_clustering, 1, "always") {
    C::LowEntropy p; p.dataset_size = src.small(1, 200);
    rng_t rng(1 + src.draw(1000));
    int over = p.dataset_size + 1 + src.small(0, 50);
    src.nontrivial();
    switch (src.integer(0, 5)) {
        case 0: MUST_RAISE(p.sample_assignments(over, rng), over << " of " << p.dataset_size); break;
        case 1: MUST_RAISE(p.score_add_value(1 + src.small(0, 5), 1, over - 1, 1), "sample size reaches the data set size"); break;
        case 2: MUST_RAISE(p.score_add_value(0, 0, 0, 0), "no empty group"); break;
        case 3: MUST_RAISE(p.score_remove_value(1, 1, 0, 1), "sample size 0"); break;
        case 4: { std::vector<int> c; int left = over; while (left > 0) { int k = 1 + src.integer(0, std::min(left, 20) - 1); c.push_back(k); left -= k; }
                  MUST_RAISE(p.score_counts(c), "more items than the data set"); break; }
        default: {  // assignments must use the groups 0, 1, ... without a gap
            C::Assignments a;
            int groups = 2 + src.small(0, 5), gap = src.index(groups - 1), n = 0;
            for (int g = 0; g < groups; ++g) if (g != gap) for (int i = 1 + src.small(0, 3); i > 0; --i) a[n++] = g;
            MUST_RAISE(C::count_assignments(a), "group " << gap << " of " << groups << " is missing");
            a[n++] = gap;
            auto c = C::count_assignments(a);
            REQ_EQ(c.size(), size_t(groups), "number of groups");
            REQ_EQ(std::accumulate(c.begin(), c.end(), 0), n, "number of items");
        }
    }
}

TARGET(C26_tracker, 1, "a group was removed") {
    distributions::MixtureIdTracker t;
    int n = src.length(0, 6);
    t.init(n);
    std::vector<uint32_t> packed; std::vector<uint32_t> gone; uint32_t next = n;
    for (int i = 0; i < n; ++i) packed.push_back(i);
    int steps = src.length(1, 20);
    for (int s = 0; s < steps; ++s) switch (src.integer(0, 6)) {
        case 0: case 1: t.add_group(); packed.push_back(next++); break;
        case 2: case 3: if (!packed.empty()) { size_t i = src.index(packed.size()); gone.push_back(packed[i]); t.remove_group(i); packed[i] = packed.back(); packed.pop_back(); } break;
        case 4: { size_t i = beyond(packed.size(), src); MUST_RAISE(t.remove_group(i), "packed id " << i << " of " << packed.size()); MUST_RAISE(t.packed_to_global(i), "packed id " << i << " of " << packed.size()); break; }
        case 5: { size_t g = beyond(next, src); MUST_RAISE(t.global_to_packed(g), "global id " << g << " of " << next); break; }
        default: if (!gone.empty()) { auto g = src.pick(gone); MUST_RAISE(t.global_to_packed(g), "global id " << g << ", removed"); src.nontrivial(); }
    }
    for (size_t i = 0; i < packed.size(); ++i) { REQ_EQ(t.packed_to_global(i), packed[i], "global id"); REQ_EQ(t.global_to_packed(packed[i]), i, "packed id"); }
}

TARGET(C26_containers, 1, "always") {
    distributions::Sparse_<uint32_t, float> m;
    std::map<uint32_t, float> ref;
    std::vector<uint32_t> keys = {0, 1, 7, 256, 0x80000000U, 0xFFFFFFFFU, 0xFFFFFFFEU};
    int steps = src.length(1, 25);
    const auto & cm = m;
    for (int s = 0; s < steps; ++s) {
        uint32_t k = src.boolean(1, 4) ? src.draw(0xFFFFFFFFU) : src.pick(keys);
        bool have = ref.count(k);
        float x = src.integer(-9, 9);
        switch (src.integer(0, 6)) {
            case 0: REQ_EQ(raises([&] { m.add(k, x); }), have, "add of a duplicate key"); if (!have) ref[k] = x; break;
            case 1: REQ_EQ(raises([&] { m.add(k) = x; }), have, "add of a duplicate key"); if (!have) ref[k] = x; break;
            case 2: REQ_EQ(raises([&] { m.remove(k); }), !have, "removal of a missing key"); ref.erase(k); break;
            case 3: REQ_EQ(raises([&] { float y = m.pop(k); REQ_EQ(y, ref[k], "popped"); }), !have, "pop of a missing key"); ref.erase(k); break;
            case 4: REQ_EQ(raises([&] { m.set(k, x); }), !have, "set of a missing key"); if (have) ref[k] = x; break;
            case 5: REQ_EQ(raises([&] { REQ_EQ(m.get(k), ref.at(k), "get"); }), !have, "get of a missing key"); break;
            default: REQ_EQ(raises([&] { REQ_EQ(cm.get(k), ref.at(k), "get"); }), !have, "get of a missing key");
        }
        REQ_EQ(m.size(), ref.size(), "size");
    }
    for (auto & i : ref) REQ_EQ(m.get(i.first), i.second, "value of " << i.first);
    distributions::SparseCounter<uint32_t, int> c;
    uint32_t k = src.pick(keys);
    c.init_count(k, 3);
    MUST_RAISE(c.init_count(k, 1 + src.small(0, 9)), "duplicate key");
    REQ_EQ(c.get_count(k), 3, "count after a duplicate init_count");
    REQ_EQ(c.get_total(), 3, "total after a duplicate init_count");
    distributions::Packed_<int> p;
    std::vector<int> q;
    for (int i = src.length(0, 5); i > 0; --i) { p.packed_add(i); q.push_back(i); }
    size_t pos = beyond(p.size(), src);
    MUST_RAISE(p.packed_remove(pos), "position " << pos << " of " << p.size());
    REQ(std::vector<int>(p.begin(), p.end()) == q, "packed vector after a bad packed_remove");
    src.nontrivial();
}

TARGET(C26_random, 1, "always") {
    rng_t rng(1 + src.draw(1000));
    src.nontrivial();
    std::vector<int> urn;
    using namespace distributions;
    MUST_RAISE(sample_from_urn(rng, urn), "an empty urn");
    MUST_RAISE(sample_pair_from_urn(rng, urn), "an empty urn");
    urn.push_back(5);
    MUST_RAISE(sample_pair_from_urn(rng, urn), "an urn of one");
    REQ_EQ(sample_from_urn(rng, urn), 5, "an urn of one");
    MUST_RAISE(sample_beta_safe(rng, 1.f, 1.f, -src.f(1e-6, 1)), "a negative bound");
    MUST_RAISE(sample_beta_safe(rng, src.boolean() ? 0.f : -src.f(1e-3, 5), 1.f, 1e-5f), "a non-positive alpha");
    int n = 1 + src.small(0, 5), bad = src.index(n);
    std::vector<float> alphas, probs(n);
    for (int i = 0; i < n; ++i) alphas.push_back(src.f(0.1, 10));
    MUST_RAISE(sample_dirichlet_safe(rng, n, alphas.data(), probs.data(), -src.f(1e-6, 1)), "a negative bound");
    alphas[bad] = -src.f(1e-3, 5);
    MUST_RAISE(sample_dirichlet_safe(rng, n, alphas.data(), probs.data(), 1e-5f), "a non-positive alpha");
    VectorFloat none;
    MUST_RAISE(sample_from_likelihoods(rng, none, 1.f), "no likelihoods");
    MUST_RAISE(sample_from_likelihoods(rng, none), "no likelihoods");
    MUST_RAISE(sample_discrete(rng, 0, probs.data()), "no probabilities");
    MUST_RAISE(lmultigamma(0, 3.f), "dimension 0");
}
#endif

#if PART == 1
TARGET(C26_shared_dpd, 1, "always") {
    typedef Ad<DPD_> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    auto before = dump_shared<A>(a.shared);
    uint32_t v = src.boolean() ? src.small(0, 100) : src.draw(0xFFFFFFFEU);
    MUST_RAISE(a.shared.add_value(DPD_::OTHER(), rng), "OTHER");
    MUST_RAISE(a.shared.remove_value(DPD_::OTHER(), rng), "OTHER");
    REQ(before == dump_shared<A>(a.shared), "dpd shared changed by a call that raised");
    if (a.shared.beta0 == 0 && !a.shared.betas.contains(v)) {
        MUST_RAISE(a.shared.add_value(v, rng), "a new value with no leftover weight");
        src.label("no leftover weight");
    }
    src.nontrivial();
    // messages whose parallel fields do not match, or whose weights are no sub-probability
    A::SharedPb m; a.shared.protobuf_dump(m);
    DPD_::Shared s;
    s.protobuf_load(m);
    auto broken = m;
    std::string what;
    switch (src.integer(0, 4)) {
        case 0: if (broken.values_size() == 0) broken.add_values(3); else broken.mutable_values()->RemoveLast(); what = "values"; break;
        case 1: if (broken.betas_size() == 0 || src.boolean()) broken.add_betas(1e-6f); else broken.mutable_betas()->RemoveLast(); what = "betas"; break;
        case 2: if (broken.counts_size() == 0 || src.boolean()) broken.add_counts(1); else broken.mutable_counts()->RemoveLast(); what = "counts"; break;
        case 3: if (broken.betas_size() == 0) { broken.add_betas(0.5f); broken.add_values(1); broken.add_counts(1); }
                broken.set_betas(src.index(broken.betas_size()), src.boolean() ? 0 : -src.f(1e-3, 1)); what = "a weight that is not positive"; break;
        default: if (broken.betas_size() == 0) { broken.add_betas(0.5f); broken.add_values(1); broken.add_counts(1); }
                broken.set_betas(src.index(broken.betas_size()), 1.01f + src.f(1e-2, 5)); what = "weights beyond 1";
    }
    MUST_RAISE(s.protobuf_load(broken), what << " in " << broken.ShortDebugString());
    s.protobuf_load(m);
    REQ(s.betas.size() == a.shared.betas.size(), "a shared that refused a message does not load a good one");
    A::GroupPb g; for (int i = src.small(0, 4); i >= 0; --i) { g.add_keys(i); if (i || src.boolean()) g.add_values(1); }
    if (g.values_size() == g.keys_size()) g.add_values(2);
    DPD_::Group grp; grp.init(a.shared, rng);
    MUST_RAISE(grp.protobuf_load(g), "keys and values of different lengths");
}
TARGET(C26_load_dd, 0.5, "always") {
    typedef Ad<DD8_> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    A::SharedPb m;
    for (int i = 9 + src.small(0, 300); i > 0; --i) m.add_alphas(0.5f);
    DD8_::Shared s = a.shared;
    MUST_RAISE(s.protobuf_load(m), m.alphas_size() << " alphas");
    A::GroupPb g;
    for (int i = 9 + src.small(0, 300); i > 0; --i) g.add_counts(1);
    DD8_::Group x; x.init(a.shared, rng);
    MUST_RAISE(x.protobuf_load(g), g.counts_size() << " counts");
    // a group of another dimension
    Driven<A> d; d.init(a, rng); bool r = false, p = false;
    for (int i = src.length(0, 6); i > 0; --i) d.step(a, src, rng, r, p);
    A::SharedPb other;
    int dim = src.integer(1, 8); if (dim == a.shared.dim) dim = dim % 8 + 1;
    for (int i = 0; i < dim; ++i) other.add_alphas(0.5f);
    s.protobuf_load(other);
    MUST_RAISE(d.g.validate(s), "a group of dimension " << a.shared.dim << " under a shared of dimension " << dim);
    d.g.validate(a.shared);
    src.nontrivial();
}
#endif

#if PART == 2
TARGET(C26_load_niw, 1, "always") {
    typedef Ad<NIWX_> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    A::SharedPb m, b; a.shared.protobuf_dump(m);
    int d = a.shared.mu.size();
    NIWX_::Shared s; s.protobuf_load(m);
    b = m;
    std::string what;
    switch (src.integer(0, 5)) {
        case 0: b.set_kappa(src.boolean() ? 0 : -src.f(1e-3, 5)); what = "kappa"; break;
        case 1: b.set_nu(d - 1 - (src.boolean() ? 0 : src.f(1e-3, 5))); what = "nu"; break;
        case 2: b.add_psi(1); what = "one psi too many"; break;
        case 3: b.add_mu(1); what = "one mu too many"; break;
        case 4: b.set_psi(src.index(d) * (d + 1), -src.f(0.1, 5)); what = "psi not positive definite"; break;
        default: if (d > 1) { b.set_psi(1, b.psi(1) + 1 + 2 * std::fabs(b.psi(1))); what = "psi not symmetric"; } else { b.mutable_psi()->RemoveLast(); what = "no psi"; }
    }
    NOTE(src, what << "; ");
    MUST_RAISE(s.protobuf_load(b), what << " in " << b.ShortDebugString());
    s.protobuf_load(m);
    REQ(dump_shared<A>(s) == bytes(m), "a shared that refused a message does not load a good one");
    Driven<A> dr; dr.init(a, rng); bool r = false, p = false;
    for (int i = src.length(0, 4); i > 0; --i) dr.step(a, src, rng, r, p);
    A::GroupPb g; dr.g.protobuf_dump(g);
    NIWX_::Group x; x.init(a.shared, rng);
    x.protobuf_load(g);
    if (src.boolean()) g.add_sum_x(1); else g.mutable_sum_xxt()->Add(0);
    MUST_RAISE(x.protobuf_load(g), "a group of another dimension");
    src.nontrivial();
}
#endif
