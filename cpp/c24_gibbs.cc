// C24: a collapsed Gibbs sampler put together from the library's parts (clustering mixture, two feature mixtures, id
// tracker, categorical sampling), as examples/mixture does it, against the exact mixture model.
#include "driven.hpp"
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
using distributions::VectorFloat;
using distributions::AlignedFloats;
using distributions::MixtureSlave;
using distributions::MixtureDriver;
typedef distributions::Clustering<int32_t> Cl;
typedef Cl::PitmanYor PY;
typedef Cl::LowEntropy LE;

// ---------------------------------------------------------------- the clustering's part of a conditional, exactly
static Sc prior_ref(const PY & m, double size, double nonempty, double n, double empty) {
    double v = size == 0 ? orc::log_((m.alpha + double(m.d) * nonempty) / ((n + m.alpha) * empty)) : orc::log_((size - m.d) / (n + m.alpha));
    return Sc(v, 2 * orc::err_log(size + 1, 1e-6) + 5e-7 * orc::log_(n + m.alpha + 1) + 1e-6); }
static Sc prior_ref(const LE & m, double size, double, double n, double empty) {
    double N = m.dataset_size;
    if (size == 0) {
        double k = n + 1, v = -orc::log_(empty) + (k < N ? orc::log_(N / k) * (0.45 - 0.1 / k - 0.1 / N) : 0);
        return Sc(v, 2e-4); }
    return Sc(size * orc::log_((size + 1) / size) + orc::log_(size + 1), 7.6e-5 * (1 + size) + 3e-7 * size + 1e-6); }
// unnormalised log probability of a whole partition
static double prior_all(const PY & m, const std::vector<int> & sizes) {
    double s = 0, k = 0;
    for (int x : sizes) { s += orc::log_(m.alpha + double(m.d) * k) + orc::lgam(x - double(m.d)) - orc::lgam(1 - double(m.d)); k += 1; }
    return s; }
static double prior_all(const LE &, const std::vector<int> & sizes) { double s = 0; for (int x : sizes) s += x * orc::log_(x); return s; }
static PY make(Src & src, PY *, int) {
    PY m; m.alpha = src.f(0.05, 50); m.d = src.boolean(1, 3) ? 0.f : static_cast<float>(src.real(0, 0.9));
    NOTE(src, "PitmanYor alpha=" << m.alpha << " d=" << m.d << "; "); return m; }
static LE make(Src & src, LE *, int n) { LE m; m.dataset_size = n + (src.boolean() ? 0 : src.small(0, 50)); NOTE(src, "LowEntropy dataset_size=" << m.dataset_size << "; "); return m; }
// sweeps need the whole data set
static LE whole(LE m, int n) { m.dataset_size = n; return m; }
static PY whole(PY m, int) { return m; }

// every value the sampler handles is counted in the shared parameters first (dpd)
template<class A> static void announce(A &, const std::vector<typename A::Value> &, rng_t &) {}
template<class A> static typename A::Value some_value(A & a, Src & src) { return a.value(src); }
#if PART == 1
static void announce(Ad<DPD_> & a, const std::vector<uint32_t> & xs, rng_t & rng) {
    for (auto x : xs) a.shared.add_value(x, rng);
    a.keys.clear();
    for (auto & i : a.shared.betas) a.keys.push_back(i.first); }
static uint32_t some_value(Ad<DPD_> & a, Src & src) { return src.boolean(1, 3) ? Ad<DPD_>::key(src) : a.value(src); }
#endif

template<class C, class CM, class M, class MX, class MY> struct Sampler {
    typedef Ad<M> A;
    typedef typename A::Value Value;
    C prior;
    A & ax;
    A & ay;
    rng_t & rng;
    CM clusters;
    MX fx;
    MY fy;
    distributions::MixtureIdTracker ids;
    std::vector<Value> xs, ys;
    std::vector<int64_t> where;          // global id of each item's group, or -1
    // the model: items of each packed group, in order of addition, and histories
    struct G { std::vector<int> items; uint32_t id; Hist hx, hy; };
    std::vector<G> gs;
    uint32_t next_id = 0;
    int n = 0;

    Sampler(const C & c, A & x, A & y, rng_t & r) : prior(c), ax(x), ay(y), rng(r) {}

    void init(int empties) {
        clusters.counts().assign(empties, 0);
        clusters.init(prior);
        ids.init(empties);
        fx.groups().resize(empties); fy.groups().resize(empties);
        for (int i = 0; i < empties; ++i) { fx.groups(i).init(ax.shared, rng); fy.groups(i).init(ay.shared, rng); }
        fx.init(ax.shared, rng); fy.init(ay.shared, rng);
        gs.clear(); n = 0; next_id = 0;
        for (int i = 0; i < empties; ++i) { gs.push_back(G()); gs.back().id = next_id++; }
        where.assign(xs.size(), -1);
    }
    void add(int i, size_t k) {
        bool grown = clusters.add_value(prior, k);
        fx.add_value(ax.shared, k, xs[i], rng);
        fy.add_value(ay.shared, k, ys[i], rng);
        if (grown) { fx.add_group(ax.shared, rng); fy.add_group(ay.shared, rng); ids.add_group(); }
        where[i] = ids.packed_to_global(k);
        if (gs[k].items.empty()) { gs.push_back(G()); gs.back().id = next_id++; }
        gs[k].items.push_back(i); note(gs[k], i); ++n;
    }
    void remove(int i) {
        size_t k = ids.global_to_packed(where[i]);
        bool gone = clusters.remove_value(prior, k);
        fx.remove_value(ax.shared, k, xs[i], rng);
        fy.remove_value(ay.shared, k, ys[i], rng);
        if (gone) { fx.remove_group(ax.shared, k); fy.remove_group(ay.shared, k); ids.remove_group(k); }
        where[i] = -1;
        for (size_t j = 0; j < gs.size(); ++j) {
            auto it = std::find(gs[j].items.begin(), gs[j].items.end(), i);
            if (it == gs[j].items.end()) continue;
            REQ_EQ(k, j, "packed group of item " << i);
            gs[j].items.erase(it); note(gs[j], i);
            if (gs[j].items.empty()) { gs[j] = gs.back(); gs.pop_back(); }
            break;
        }
        --n;
    }
    void note(G & g, int i) {
        g.hx.ops += 1; g.hy.ops += 1;
        g.hx.peak = std::max(g.hx.peak, A::mag(xs[i])); g.hy.peak = std::max(g.hy.peak, A::mag(ys[i])); }

    VectorFloat scores(const Value & x, const Value & y) {
        VectorFloat s(clusters.counts().size());
        clusters.score_value(prior, s);
        fx.score_value(ax.shared, x, s, rng);
        fy.score_value(ay.shared, y, s, rng);
        return s;
    }
    static std::vector<Value> pick(const std::vector<Value> & v, const std::vector<int> & items) {
        std::vector<Value> r; for (int i : items) r.push_back(v[i]); return r; }

    // every slot of the conditional against the exact one; the bookkeeping against the model
    void check(const Value & x, const Value & y) {
        size_t k = gs.size(), empty = 0;
        REQ_EQ(clusters.counts().size(), k, "clustering's groups");
        REQ_EQ(fx.groups().size(), k, "first feature's groups");
        REQ_EQ(fy.groups().size(), k, "second feature's groups");
        REQ_EQ(ids.packed_size(), k, "tracker's groups");
        REQ_EQ(clusters.sample_size(), static_cast<size_t>(n), "sample size");
        for (size_t i = 0; i < k; ++i) {
            REQ_EQ(clusters.counts(i), static_cast<int>(gs[i].items.size()), "count of group " << i);
            REQ_EQ(ids.packed_to_global(i), gs[i].id, "id of group " << i);
            if (gs[i].items.empty()) ++empty;
        }
        for (size_t i = 0; i < where.size(); ++i) if (where[i] >= 0) {
            auto & g = gs.at(ids.global_to_packed(where[i]));
            REQ(std::count(g.items.begin(), g.items.end(), static_cast<int>(i)) == 1, "item " << i << " is not in its group");
        }
        VectorFloat s = scores(x, y);
        for (size_t i = 0; i < k; ++i) {
            auto gx = pick(xs, gs[i].items), gy = pick(ys, gs[i].items);
            Sc ref = prior_ref(prior, gx.size(), k - empty, n, empty), rx = A::score_value(ax.shared, gx, gs[i].hx, x), ry = A::score_value(ay.shared, gy, gs[i].hy, y);
            if (rx.tol > 1e200 || ry.tol > 1e200) continue;
            double mag = std::fabs(ref.v) + std::fabs(rx.v) + std::fabs(ry.v) + 1;
            ref = ref + rx + ry;
            ref.tol += 4e-7 * mag;
            REQ_SCORE(s[i], ref, omitted_<A>(0, ax.shared, x) + omitted_<A>(0, ay.shared, y), A::name() << " conditional of slot " << i << " of " << k << " for (" << A::show(x) << ", " << A::show(y)
                << ") with " << show_all<A>(gx) << " and " << show_all<A>(gy));
        }
    }
    void sweep(const std::vector<int> & order) {
        for (int i : order) {
            if (where[i] >= 0) remove(i);
            VectorFloat s = scores(xs[i], ys[i]);
            add(i, distributions::sample_from_scores_overwrite(rng, s));
        }
    }
    std::vector<int> partition() const {
        std::map<int64_t, int> first; std::vector<int> r;
        for (auto w : where) { auto it = first.insert(std::make_pair(w, static_cast<int>(first.size()))).first; r.push_back(it->second); }
        return r;
    }
};

// ---------------------------------------------------------------- conditionals after any history of moves
template<class M, class MX, class MY, class C, class CM> static void conditionals(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(100000));
    A ax(src, rng), ay(src, rng);
    int items = src.length(1, 25);
    Sampler<C, CM, M, MX, MY> w(make(src, static_cast<C *>(nullptr), items), ax, ay, rng);
    for (int i = 0; i < items; ++i) { w.xs.push_back(some_value(ax, src)); w.ys.push_back(some_value(ay, src)); }
    announce(ax, w.xs, rng); announce(ay, w.ys, rng);
    w.init(src.integer(1, 4));
    NOTE(src, "x " << show_all<A>(w.xs) << "; y " << show_all<A>(w.ys) << "; ");
    int steps = src.length(1, 60);
    bool removed = false;
    for (int t = 0; t < steps; ++t) {
        std::vector<int> in, out;
        for (int i = 0; i < items; ++i) (w.where[i] < 0 ? out : in).push_back(i);
        int kind = src.weighted({out.empty() ? 0 : 6, in.empty() ? 0 : 3, in.empty() ? 0 : 4, 1});
        if (kind == 0 || kind == 2) {  // an item joins, or moves
            int i = kind == 0 ? out[src.index(out.size())] : in[src.index(in.size())];
            if (kind == 2) { w.remove(i); removed = true; }
            if (src.boolean(1, 3)) w.check(w.xs[i], w.ys[i]);
            size_t k;
            if (src.boolean(1, 4)) { VectorFloat s = w.scores(w.xs[i], w.ys[i]); k = distributions::sample_from_scores_overwrite(rng, s); }
            else k = src.index(w.gs.size());
            NOTE(src, (kind ? "move " : "add ") << i << " to " << k << "; ");
            w.add(i, k);
        } else if (kind == 1) {
            int i = in[src.index(in.size())];
            NOTE(src, "remove " << i << "; ");
            w.remove(i); removed = true;
        } else {
            NOTE(src, "check; ");
            if (w.n < items) w.check(w.xs[src.index(items)], w.ys[src.index(items)]);
        }
    }
    if (w.n == items) w.remove(0);  // the low-entropy model scores only what is missing
    w.check(w.xs[src.index(items)], w.ys[src.index(items)]);
    if (removed && w.gs.size() >= 3 && w.n >= 2) src.nontrivial();
}

// ---------------------------------------------------------------- one sweep keeps the exact posterior
static void partitions(int n, std::vector<int> & a, int k, std::vector<std::vector<int>> & out) {
    if (static_cast<int>(a.size()) == n) { out.push_back(a); return; }
    for (int g = 0; g <= k; ++g) { a.push_back(g); partitions(n, a, std::max(k, g + 1), out); a.pop_back(); }
}
template<class M, class MX, class MY, class C, class CM> static void stationary(Src & src) {
    typedef Ad<M> A;
    uint32_t seed = 1 + src.draw(100000);
    rng_t rng(seed);
    A ax(src, rng), ay(src, rng);
    int items = src.integer(2, 5);
    Sampler<C, CM, M, MX, MY> w(whole(make(src, static_cast<C *>(nullptr), items), items), ax, ay, rng);
    // values that tell groups apart, but not too much: repeats are likely
    for (int i = 0; i < items; ++i) {
        if (i && src.boolean()) { int j = src.index(i); typename A::Value x = w.xs[j], y = w.ys[j]; w.xs.push_back(x); w.ys.push_back(y); }
        else { w.xs.push_back(some_value(ax, src)); w.ys.push_back(some_value(ay, src)); }
    }
    announce(ax, w.xs, rng); announce(ay, w.ys, rng);
    NOTE(src, "x " << show_all<A>(w.xs) << "; y " << show_all<A>(w.ys) << "; seed " << seed << "; ");
    std::vector<std::vector<int>> all;
    std::vector<int> cur;
    partitions(items, cur, 0, all);
    std::vector<double> lp;
    Hist h; h.ops = items;
    for (int i = 0; i < items; ++i) h.peak = std::max(h.peak, std::max(A::mag(w.xs[i]), A::mag(w.ys[i])));
    double worst = 0;
    for (auto & p : all) {
        int k = 1 + *std::max_element(p.begin(), p.end());
        std::vector<int> sizes(k, 0);
        double s = 0, tol = 0;
        for (int g = 0; g < k; ++g) {
            std::vector<typename A::Value> gx, gy;
            for (int i = 0; i < items; ++i) if (p[i] == g) { ++sizes[g]; gx.push_back(w.xs[i]); gy.push_back(w.ys[i]); }
            Sc x = A::score_data(ax.shared, gx, h), y = A::score_data(ay.shared, gy, h);
            s += x.v + y.v; tol += x.width() + y.width();
        }
        lp.push_back(s + prior_all(w.prior, sizes));
        worst = std::max(worst, tol);
    }
    double z = orc::log_sum_exp(lp), entropy = 0;
    std::vector<double> prob;
    for (auto s : lp) { prob.push_back(orc::exp_(s - z)); entropy -= prob.back() * (s - z); }
    if (worst > 0.3) { src.label("loose"); return; }  // the approximation errors of ill-conditioned scores would show
    std::map<std::vector<int>, size_t> index;
    for (size_t i = 0; i < all.size(); ++i) index[all[i]] = i;
    int empties = src.integer(1, 3);
    auto run = [&](int draws, uint32_t sd) {
        rng = rng_t(sd);
        std::mt19937 gen(sd * 31 + 7);
        std::discrete_distribution<int> pick(prob.begin(), prob.end());
        std::vector<double> o(all.size(), 0), e;
        std::vector<int> order(items);
        for (int i = 0; i < items; ++i) order[i] = i;
        for (int d = 0; d < draws; ++d) {
            auto & start = all[pick(gen)];
            w.init(empties);
            std::vector<int> put(items, -1);  // an item of each block placed so far
            for (int i = 0; i < items; ++i) {
                size_t k = 0;
                if (put[start[i]] >= 0) k = w.ids.global_to_packed(w.where[put[start[i]]]);
                else while (!w.gs[k].items.empty()) ++k;
                w.add(i, k); put[start[i]] = i;
            }
            std::shuffle(order.begin(), order.end(), gen);
            w.sweep(order);
            o[index.at(w.partition())] += 1;
        }
        for (auto p : prob) e.push_back(p * draws);
        return orc::chi2_test(o, e);
    };
    double p = run(400, seed);
    if (p < 1e-5) {
        p = run(4000, seed + 100003);
        REQ(p > 1e-8, A::name() << " a Gibbs sweep over " << items << " items does not keep the posterior: p=" << p);
    }
    if (items >= 3 && entropy > 0.3) src.nontrivial();
    if (entropy > 1) src.label("spread posterior");
}

#if PART <= 1
#define FAST M_::FastMixture
#else
#define FAST MixtureSlave<M_>
#endif
#define X(suffix, M, wt) \
    TARGET(C24_conditionals_py_##suffix, wt, "an item moved or left, three groups and two items remain") { typedef M M_; conditionals<M, FAST, MixtureSlave<M>, PY, PY::Mixture>(src); } \
    TARGET(C24_conditionals_le_##suffix, 0.5 * wt, "an item moved or left, three groups and two items remain") { typedef M M_; conditionals<M, MixtureSlave<M>, FAST, LE, LE::Mixture>(src); } \
    TARGET(C24_stationary_py_##suffix, 0.02 * wt, "at least three items, posterior entropy above 0.3") { typedef M M_; stationary<M, FAST, MixtureSlave<M>, PY, PY::Mixture>(src); } \
    TARGET(C24_stationary_le_##suffix, 0.01 * wt, "at least three items, posterior entropy above 0.3") { typedef M M_; stationary<M, MixtureSlave<M>, FAST, LE, LE::Mixture>(src); }
FOR_MODELS
