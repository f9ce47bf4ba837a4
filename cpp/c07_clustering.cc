// C07 mixture drivers, C08 id tracker, C09 Pitman-Yor, C10 low entropy, C11 sampled partitions.
#include "engine.hpp"
#include "oracle.hpp"
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
using distributions::rng_t;
using distributions::VectorFloat;
using distributions::AlignedFloats;
using distributions::MixtureDriver;
using eng::Src;
typedef distributions::Clustering<int32_t> Cl;
typedef Cl::PitmanYor PY;
typedef Cl::LowEntropy LE;
typedef std::vector<int32_t> Counts;

static std::string show(const Counts & c) { std::string r = "["; for (size_t i = 0; i < c.size(); ++i) r += (i ? " " : "") + std::to_string(c[i]); return r + "]"; }

// ---------------------------------------------------------------- references
struct RPY { double alpha, d; };
static double py_add(const RPY & m, double size, double nonempty, double n, double empty) {
    return size == 0 ? orc::log_((m.alpha + m.d * nonempty) / ((n + m.alpha) * empty)) : orc::log_((size - m.d) / (n + m.alpha));
}
// exchangeable partition probability function
static double py_eppf(const RPY & m, const Counts & c) {
    double s = 0, n = 0, k = 0;
    for (auto x : c) if (x) {
        s += orc::log_(m.alpha + m.d * k) + orc::lgam(x - m.d) - orc::lgam(1 - m.d);
        n += x; k += 1;
    }
    return s - (orc::lgam(m.alpha + n) - orc::lgam(m.alpha));
}
static double py_tol(const RPY & m, const Counts & c) {
    double t = 1e-6, n = 0, k = 0;
    for (auto x : c) if (x) {
        if (x <= 2) t += orc::err_log((m.alpha + m.d * k) * (x == 2 ? 1 - m.d : 1) / ((m.alpha + n) * (x == 2 ? m.alpha + n + 1 : 1)), 1e-6);
        else t += orc::err_log(m.alpha + m.d * k, 4e-7) + orc::err_lgamma(x - m.d, 4e-7) + orc::err_lgamma(1 - m.d, 4e-7)
                + orc::err_lgamma(m.alpha + n + x, 4e-7) + orc::err_lgamma(m.alpha + n, 4e-7)
                + 2e-7 * (std::fabs(orc::lgam(x - m.d)) + std::fabs(orc::lgam(m.alpha + n + x)) + std::fabs(orc::lgam(m.alpha + n)));
        n += x; k += 1;
    }
    return t;
}
static double le_add(double N, double size, double n, double empty) {
    if (size == 0) {
        double s = -orc::log_(empty);
        if (n + 1 < N) { double k = n + 1; s += orc::log_(N / k) * (0.45 - 0.1 / k - 0.1 / N); }
        return s;
    }
    return size * orc::log_((size + 1) / size) + orc::log_(size + 1);
}
static double le_add_tol(double size) {
    if (size == 0) return 2e-4;
    if (size > 10000) return 2e-4;  // 1 instead of size * log(1 + 1/size)
    return 7.6e-5 * (1 + size) + 3e-7 * size + 1e-6;  // the log error is multiplied by the size
}
static const std::vector<double> & log_z() {  // log of the sum over set partitions of n items of prod k^k
    static std::vector<double> z;
    if (z.empty()) {
        const int N = 3000;
        std::vector<double> lf(N + 1), lk(N + 1, 0);
        for (int i = 0; i <= N; ++i) { lf[i] = orc::lgam(i + 1.0); if (i) lk[i] = i * orc::log_(i); }
        z.push_back(0);
        for (int n = 1; n <= N; ++n) {
            std::vector<double> t(n);
            for (int k = 1; k <= n; ++k) t[k - 1] = lf[n - 1] - lf[k - 1] - lf[n - k] + lk[k] + z[n - k];
            z.push_back(orc::log_sum_exp(t));
        }
    }
    return z;
}
// all partitions of n into positive parts, with the log number of set partitions of each shape
static void shapes(int n, int max, Counts & cur, const std::function<void(const Counts &, double)> & f) {
    if (n == 0) {
        double m = 0; int total = 0;
        std::map<int, int> mult;
        for (auto k : cur) { m -= orc::lgam(k + 1.0); ++mult[k]; total += k; }
        for (auto & p : mult) m -= orc::lgam(p.second + 1.0);
        f(cur, m + orc::lgam(total + 1.0));
        return;
    }
    for (int k = std::min(n, max); k >= 1; --k) { cur.push_back(k); shapes(n - k, k, cur, f); cur.pop_back(); }
}

static PY make_py(Src & src) {
    PY m;
    m.alpha = src.f(0.005, 1000);
    m.d = src.boolean(1, 3) ? 0.f : static_cast<float>(src.real(0, 0.99));
    NOTE(src, "PitmanYor alpha=" << m.alpha << " d=" << m.d << "; ");
    return m;
}
static RPY ref(const PY & m) { return RPY{m.alpha, m.d}; }

// ---------------------------------------------------------------- C07
static double score_ref(const PY & m, double size, double nonempty, double n, double empty) { return py_add(ref(m), size, nonempty, n, empty); }
static double score_tol(const PY & m, double size, double n) { return 2 * orc::err_log(size + 1, 1e-6) + 5e-7 * (orc::log_(n + m.alpha + 1)); }
static double score_ref(const LE & m, double size, double, double n, double empty) { return le_add(m.dataset_size, size, n, empty); }
static double score_tol(const LE &, double size, double) { return le_add_tol(size); }
static double data_ref(const PY & m, const Counts & c, double & tol) { tol = py_tol(ref(m), c); return py_eppf(ref(m), c); }
static double data_ref(const LE & m, const Counts & c, double & tol) { tol = 1e-4; return m.score_counts(c); }
static PY make(Src & src, PY *) { return make_py(src); }
static LE make(Src & src, LE *) { LE m; m.dataset_size = src.boolean(1, 8) ? 1000000000 : 4000 + src.small(0, 100000); NOTE(src, "LowEntropy dataset_size=" << m.dataset_size << "; "); return m; }
static int most(const PY &) { return 100000; }
static int most(const LE & m) { return m.dataset_size < 100000000 ? 30 : 100000; }
static void change(Src & src, PY & m) { m = make_py(src); }
static void change(Src & src, LE & m) { m = make(src, &m); }

template<class Model, class Driver> static void driver(Src & src) {
    Model m = make(src, static_cast<Model *>(nullptr));
    Driver d;
    Counts c;
    auto start = [&]() {
        c.clear();
        int k = src.boolean(1, 8) ? src.length(0, src.boolean(1, 6) && most(m) > 30 ? 400 : 40) : src.length(0, 6);
        int top = src.boolean(1, 4) ? most(m) : 30;
        if (k > 40) src.label("many groups");
        if (top > 30) src.label("large counts");
        for (int i = 0; i < k; ++i) c.push_back(src.boolean(1, 4) ? 0 : src.small(1, top));
        if (!std::count(c.begin(), c.end(), 0)) c.insert(c.begin() + src.index(c.size() + 1), 0);
        d.counts() = c;
        NOTE(src, "init " << show(c) << "; ");
        d.init(m);
    };
    start();
    size_t empties = std::count(c.begin(), c.end(), 0);
    auto check = [&]() {
        const Driver & k = d;
        REQ(k.counts() == c, "counts are " << show(k.counts()) << ", expected " << show(c));
        size_t total = 0;
        for (auto x : c) total += x;
        REQ_EQ(k.sample_size(), total, "sample size for " << show(c));
        REQ_EQ(k.empty_groupids().size(), empties, "number of empty groups for " << show(c));
        for (size_t i = 0; i < c.size(); ++i) {
            REQ_EQ(k.empty_groupids().count(i), static_cast<size_t>(c[i] == 0), "empty_groupids at " << i << " for " << show(c));
            REQ_EQ(k.counts(i), c[i], "counts(i)");
        }
        size_t n = c.size();
        VectorFloat out(n + 4, 77.f);
        k.score_value(m, AlignedFloats(out.data(), n));
        for (size_t i = 0; i < n; ++i) {
            double own = m.score_add_value(c[i], n - empties, total, empties), r = score_ref(m, c[i], n - empties, total, empties), tol = score_tol(m, c[i], total);
            REQ_NEAR(out[i], r, tol, "score_value of group " << i << " for " << show(c));
            REQ_NEAR(out[i], own, tol, "score_value against score_add_value of group " << i << " for " << show(c));
        }
        for (size_t i = n; i < n + 4; ++i) REQ_EQ(out[i], 77.f, "score_value wrote past its output");
    };
    check();
    Driver other;  // used in between, with hyperparameters of its own
    Model m2 = make(src, static_cast<Model *>(nullptr));
    Counts c2;
    if (src.boolean(1, 3)) {
        for (int i = 0, k = src.length(0, 8); i < k; ++i) c2.push_back(src.boolean(1, 4) ? 0 : src.small(1, 30));
        c2.push_back(0);
        NOTE(src, "second driver " << show(c2) << "; ");
        src.label("two drivers");
        other.counts() = c2;
        other.init(m2);
    }
    bool emptied_middle = false;
    int steps = src.length(1, 50);
    for (int s = 0; s < steps; ++s) {
        std::vector<size_t> full;
        for (size_t i = 0; i < c.size(); ++i) if (c[i]) full.push_back(i);
        switch (src.weighted({6, full.empty() ? 0 : 6, 1, 1, c2.empty() ? 0 : 1})) {
            case 0: {
                size_t g = src.index(c.size());
                int n = src.boolean() ? 1 : src.small(1, 20);
                NOTE(src, "add " << n << " to " << g << "; ");
                bool was_empty = c[g] == 0, r = n == 1 && src.boolean() ? d.add_value(m, g) : d.add_value(m, g, n);
                REQ_EQ(r, was_empty, "add_value's result for group " << g << " of " << show(c));
                c[g] += n;
                if (was_empty) c.push_back(0);
                break;
            }
            case 1: {
                size_t g = full[src.index(full.size())];
                int n = src.boolean(1, 3) ? c[g] : src.small(1, c[g]);
                NOTE(src, "remove " << n << " from " << g << "; ");
                bool empties_it = n == c[g], r = n == 1 && src.boolean() ? d.remove_value(m, g) : d.remove_value(m, g, n);
                REQ_EQ(r, empties_it, "remove_value's result for group " << g << " of " << show(c));
                c[g] -= n;
                if (empties_it) { if (g + 1 < c.size()) emptied_middle = true; c[g] = c.back(); c.pop_back(); }
                break;
            }
            case 3: {
                NOTE(src, "continue with a copy; ");
                src.label("copied");
                Driver copy(d);
                d.add_value(m, src.index(c.size()));  // the copy does not follow
                if (src.boolean()) d = copy; else std::swap(d, copy);
                break;
            }
            case 4: {
                std::swap(d, other); std::swap(m, m2); std::swap(c, c2);
                NOTE(src, "swap drivers; ");
                empties = std::count(c.begin(), c.end(), 0);
                break;
            }
            default: {
                if (src.boolean()) change(src, m);
                start();
                empties = std::count(c.begin(), c.end(), 0);
                src.label("re-init");
            }
        }
        check();
    }
    size_t total = 0;
    for (auto x : c) total += x;
    if (total) {
        double tol, r = data_ref(m, c, tol);
        REQ_NEAR(d.score_data(m), r, tol, "score_data for " << show(c));
    }
    if (emptied_middle) src.nontrivial();
}
TARGET(C07_py_cached, 1, "a group below the last was emptied") { driver<PY, PY::CachedMixture>(src); }
TARGET(C07_py_driver, 0.5, "a group below the last was emptied") { driver<PY, MixtureDriver<PY, int32_t>>(src); }
TARGET(C07_le_driver, 0.5, "a group below the last was emptied") { driver<LE, LE::Mixture>(src); }

// ---------------------------------------------------------------- C08
TARGET(C08_tracker, 1, "a group below the last was removed and another added later") {
    distributions::MixtureIdTracker t;
    std::vector<uint32_t> ids;
    uint32_t next = 0;
    auto start = [&]() {
        ids.clear(); next = 0;
        int k = src.boolean(1, 4) ? src.length(0, src.boolean(1, 40) ? 30000 : 300) : src.length(0, 6);
        NOTE(src, "init " << k << "; ");
        if (k == 0 && src.boolean()) t.init(); else t.init(k);
        for (int i = 0; i < k; ++i) ids.push_back(next++);
    };
    start();
    bool middle = false, later = false;
    auto check = [&](bool all) {
        REQ_EQ(t.packed_size(), ids.size(), "packed_size");
        REQ_EQ(t.global_size(), static_cast<size_t>(next), "global_size");
        if (all) for (uint32_t i = 0; i < ids.size(); ++i) {
            REQ_EQ(t.packed_to_global(i), ids[i], "packed_to_global " << i << " of " << ids.size());
            REQ_EQ(t.global_to_packed(ids[i]), i, "global_to_packed " << ids[i]);
        }
    };
    check(true);
    int steps = src.length(1, 120);
    for (int s = 0; s < steps; ++s) {
        switch (src.weighted({6, ids.empty() ? 0 : 6, 1, 1})) {
            case 3: {
                NOTE(src, "continue with a copy; ");
                src.label("copied");
                distributions::MixtureIdTracker copy(t), third;
                if (ids.size()) t.remove_group(0); else t.add_group();
                if (src.boolean()) t = copy; else { std::swap(third, copy); std::swap(t, third); }
                break;
            }
            case 0: NOTE(src, "add; "); t.add_group(); ids.push_back(next++); if (middle) later = true; break;
            case 1: {
                uint32_t i = src.boolean(1, 4) ? ids.size() - 1 : src.index(ids.size());
                NOTE(src, "remove " << i << "; ");
                if (i + 1 < ids.size()) middle = true;
                t.remove_group(i);
                ids[i] = ids.back(); ids.pop_back();
                break;
            }
            default: if (src.boolean(1, 4)) start();
        }
        check(ids.size() < 40 || s % 8 == 0);
    }
    check(true);
    if (later) src.nontrivial();
}

// ids are never reused and never mixed up, however many groups there have been
TARGET(C08_tracker_long, 0.001, "more than 65536 groups were added after the start and at least one removed") {
    distributions::MixtureIdTracker t;
    std::vector<uint32_t> ids;
    uint32_t next = 0;
    int k = src.boolean() ? src.small(0, 10) : src.small(0, 100000);
    t.init(k);
    for (int i = 0; i < k; ++i) ids.push_back(next++);
    long steps = src.boolean(3, 4) ? 132000L + src.small(0, 200000) : src.small(0, 60000);
    uint32_t keep = 1 + src.small(0, 3000), seed = src.draw(1000000);
    NOTE(src, "init " << k << ", then " << steps << " random additions and removals (seed " << seed << ") around " << keep << " groups; ");
    std::mt19937 r(seed);
    long added = 0, removed = 0;
    auto look = [&](uint32_t i) {
        REQ_EQ(t.packed_to_global(i), ids[i], "packed_to_global " << i << " of " << ids.size() << " after " << next << " ids");
        REQ_EQ(t.global_to_packed(ids[i]), i, "global_to_packed " << ids[i] << " of " << ids.size() << " after " << next << " ids");
    };
    for (long s = 0; s < steps; ++s) {
        bool add = ids.empty() || (ids.size() < keep ? r() % 8 != 0 : r() % 2 == 0);
        if (add) { t.add_group(); ids.push_back(next++); ++added; look(ids.size() - 1); }
        else {
            uint32_t i = r() % ids.size();
            t.remove_group(i);
            ids[i] = ids.back(); ids.pop_back();
            ++removed;
            if (i < ids.size()) look(i);
        }
    }
    REQ_EQ(t.packed_size(), ids.size(), "packed_size");
    REQ_EQ(t.global_size(), static_cast<size_t>(next), "global_size");
    for (uint32_t i = 0; i < ids.size(); ++i) look(i);
    if (added > 65536 && removed) src.nontrivial();
}

// ---------------------------------------------------------------- C09
static Counts some_counts(Src & src, bool empties, int groups, int most) {
    Counts c;
    int k = src.length(1, groups);
    for (int i = 0; i < k; ++i) c.push_back(empties && src.boolean(1, 4) ? 0 : src.small(1, most));
    return c;
}
static void shuffle(Counts & c, Src & src) { for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[src.index(i)]); }

TARGET(C09_counts, 2, "at least two groups, one with three or more items") {
    PY m = make_py(src);
    Counts c = some_counts(src, true, 12, src.boolean(1, 5) ? 5000 : 12);
    NOTE(src, "counts " << show(c) << "; ");
    double s = m.score_counts(c), tol = py_tol(ref(m), c), want = py_eppf(ref(m), c);
    REQ_NEAR(s, want, tol, "score_counts of " << show(c) << ", alpha=" << m.alpha << " d=" << m.d);
    Counts p = c;
    shuffle(p, src);
    REQ_NEAR(m.score_counts(p), s, tol + py_tol(ref(m), p), "score_counts depends on the order of " << show(c));
    Counts full;
    for (auto x : c) if (x) full.push_back(x);
    REQ_NEAR(m.score_counts(full), s, 1e-5 + 1e-6 * std::fabs(s), "score_counts depends on empty groups of " << show(c));
    int big = *std::max_element(c.begin(), c.end());
    if (full.size() >= 2 && big >= 3) src.nontrivial();
}
TARGET(C09_chain, 1, "at least two groups and five items") {
    PY m = make_py(src);
    Counts c = some_counts(src, false, 8, 10), seats;
    for (size_t g = 0; g < c.size(); ++g) for (int i = 0; i < c[g]; ++i) seats.push_back(g);
    shuffle(seats, src);
    Counts now(c.size(), 0);
    int k = 0, n = 0, empty = src.integer(1, 4);
    double sum = 0, tol = 0;
    for (auto g : seats) {
        // with several empty groups the new one is any of them
        double s = m.score_add_value(now[g], k, n, empty) + (now[g] == 0 ? orc::log_(empty) : 0);
        double want = py_add(ref(m), now[g], k, n, 1);
        REQ_NEAR(s, want, orc::err_log(orc::exp_(want), 1e-6), "score_add_value group_size=" << now[g] << " nonempty=" << k << " n=" << n << " empty=" << empty);
        if (n == 0) REQ_NEAR(s, 0, 1e-4, "the first item always opens a group");
        sum += s; tol += orc::err_log(orc::exp_(want), 1e-6);
        if (now[g]++ == 0) ++k;
        ++n;
        // taking it away again undoes the addition (for the same number of empty groups)
        double back = m.score_remove_value(now[g], k, n, empty), fwd = m.score_add_value(now[g] - 1, now[g] == 1 ? k - 1 : k, n - 1, empty);
        REQ_NEAR(back, -fwd, 1e-6 * (1 + std::fabs(fwd)), "score_remove_value group_size=" << now[g] << " nonempty=" << k << " n=" << n);
    }
    REQ_NEAR(sum, m.score_counts(c), tol + py_tol(ref(m), c), "sum of score_add_value along " << show(seats) << " against score_counts");
    if (c.size() >= 2 && n >= 5) src.nontrivial();
}
TARGET(C09_predictive, 1, "at least one group has items") {
    PY m = make_py(src);
    Counts c = some_counts(src, true, 20, src.boolean(1, 5) ? 100000 : 20);
    c.push_back(0);
    int empty = std::count(c.begin(), c.end(), 0), k = c.size() - empty, n = 0;
    for (auto x : c) n += x;
    double sum = 0;
    for (auto x : c) sum += orc::exp_(m.score_add_value(x, k, n, empty));
    REQ_NEAR(sum, 1, 2e-4, "sum of exp(score_add_value) over " << show(c));
    if (k) src.nontrivial();
}
TARGET(C09_all_partitions, 0.05, "at least four items") {
    PY m = make_py(src);
    int n = src.integer(1, 14);
    double sum = 0, tol = 1e-5;
    Counts cur;
    shapes(n, n, cur, [&](const Counts & c, double mult) {
        double p = orc::exp_(mult + py_eppf(ref(m), c));
        sum += orc::exp_(mult + m.score_counts(c));
        tol += p * 2 * py_tol(ref(m), c);
    });
    NOTE(src, "n=" << n << "; ");
    REQ_NEAR(sum, 1, tol, "sum of exp(score_counts) over all partitions of " << n << " items, alpha=" << m.alpha << " d=" << m.d);
    if (n >= 4) src.nontrivial();
}

// ---------------------------------------------------------------- C10
static double le_weight(const Counts & c) { double s = 0; for (auto x : c) if (x > 1) s += x * orc::log_(x); return s; }
TARGET(C10_counts, 2, "at least two groups") {
    Counts c = some_counts(src, true, 12, src.boolean(1, 4) ? 2000 : src.boolean() ? 8 : 60);
    int n = 0;
    for (auto x : c) n += x;
    if (n == 0) { c.push_back(1); n = 1; }
    LE m;
    m.dataset_size = n;
    NOTE(src, "counts " << show(c) << "; ");
    double z = n <= 3000 ? log_z()[n] : n * orc::log_(n) * 1.1;
    double tol = 7.6e-5 * n + 1e-5 * (1 + z), s = m.score_counts(c);
    if (n >= 48) tol += 3e-4 * z;  // the documented approximation
    if (n <= 3000) REQ_NEAR(s, le_weight(c) - z, tol, "score_counts of " << show(c));
    if (n <= 3000) REQ_NEAR(m.log_partition_function(n), z, n < 48 ? 2e-7 * z + 1e-6 : 3e-4 * z + 7.6e-5 * n, "log_partition_function(" << n << ")");
    Counts p = c;
    shuffle(p, src);
    REQ_NEAR(m.score_counts(p), s, 1e-6 * (1 + le_weight(c) + z) * (1 + c.size()), "score_counts depends on the order of " << show(c));
    Counts full;
    for (auto x : c) if (x) full.push_back(x);
    REQ_NEAR(m.score_counts(full), s, 1e-6 * (1 + std::fabs(s)), "score_counts depends on empty groups of " << show(c));
    // partly observed data: still the same for permutations and with empty groups
    m.dataset_size = n + src.small(1, 1000);
    double all = s;
    s = m.score_counts(c);
    {  // the documented correction for the items that are missing
        double N = m.dataset_size, k = c.size() - std::count(c.begin(), c.end(), 0), ln = orc::log_(n), lN = orc::log_(N);
        double factor = (ln - lN) * -(0.45 - 0.1 / n - 0.1 / N), extra = 0.061 * ln * (ln - lN) * orc::pow_(ln + lN, 0.75);
        REQ_NEAR(s - all, factor * (k - 1) + extra, 3e-6 * (1 + le_weight(c) + std::fabs(all)) + 7e-5 * (k + 1) + 2e-4 * (1 + orc::pow_(ln + lN, 0.75) * (ln + lN) * 0.061) + 1e-6 * std::fabs(factor * k),
            "score_counts of " << show(c) << " out of " << m.dataset_size);
    }
    REQ_NEAR(m.score_counts(p), s, 1e-6 * (10 + std::fabs(s) + le_weight(c) + z) * (1 + c.size()), "score_counts depends on the order of " << show(c) << " of " << m.dataset_size);
    REQ_NEAR(m.score_counts(full), s, 2e-6 * (10 + std::fabs(s)), "score_counts depends on empty groups of " << show(c) << " of " << m.dataset_size);
    if (full.size() >= 2) src.nontrivial();
}
TARGET(C10_add, 2, "the group is not empty or items are still missing") {
    LE m;
    int n = src.boolean() ? src.small(0, 40) : src.small(0, 30000);
    m.dataset_size = n + 1 + (src.boolean(1, 3) ? 0 : src.small(0, 100000));
    int size = n ? src.small(0, n) : 0, empty = src.integer(1, 5), k = n ? src.small(1, n) : 0;
    NOTE(src, "dataset_size=" << m.dataset_size << " group_size=" << size << " n=" << n << " empty=" << empty << "; ");
    double s = m.score_add_value(size, k, n, empty);
    REQ_NEAR(s, le_add(m.dataset_size, size, n, empty), le_add_tol(size), "score_add_value group_size=" << size << " n=" << n << " empty=" << empty << " dataset_size=" << m.dataset_size);
    // growing a group is the ratio of unnormalised weights
    if (size) REQ_NEAR(s, le_weight({size + 1}) - le_weight({size}), le_add_tol(size) + 1e-9 * size * orc::log_(size + 1.0), "weight ratio at " << size);
    double back = m.score_remove_value(size + 1, size ? k : k + 1, n + 1, empty);
    REQ_NEAR(back, -s, 1e-6 * (1 + std::fabs(s)), "score_remove_value group_size=" << size + 1 << " n=" << n + 1 << " empty=" << empty << " dataset_size=" << m.dataset_size);
    if (size || n + 1 < m.dataset_size) src.nontrivial();
}
TARGET(C10_all_partitions, 0.02, "at least four items") {
    int n = src.integer(1, 26);
    LE m;
    m.dataset_size = n;
    double sum = 0;
    Counts cur;
    shapes(n, n, cur, [&](const Counts & c, double mult) { sum += orc::exp_(mult + m.score_counts(c)); });
    NOTE(src, "n=" << n << "; ");
    REQ_NEAR(sum, 1, 1.2e-4 * n + 1e-4, "sum of exp(score_counts) over all partitions of " << n << " items");
    if (n >= 4) src.nontrivial();
}
TARGET(C10_partition_function, 0.05, "a size of at least 1") {
    LE m;
    int n = src.boolean() ? src.integer(0, 699) : src.integer(0, 3000);
    m.dataset_size = src.boolean() ? n : n + src.small(0, 1000);
    double z = log_z()[n];
    REQ_NEAR(m.log_partition_function(n), z, n < 48 ? 2e-7 * z + 1e-6 : 3e-4 * z + 7.6e-5 * n, "log_partition_function(" << n << ")");
    if (n) src.nontrivial();
}

// ---------------------------------------------------------------- C11
static void check_valid(const Counts & a, int n) {
    REQ_EQ(a.size(), static_cast<size_t>(n), "length of the assignment");
    int next = 0;
    for (auto g : a) { REQ(g >= 0 && g <= next, "group ids are not in order of first use: " << show(a)); if (g == next) ++next; }
    Cl::Assignments map;
    Counts want(next, 0);
    for (size_t i = 0; i < a.size(); ++i) { map[i * 7 + 3] = a[i]; ++want[a[i]]; }
    REQ(Cl::count_assignments(map) == want, "count_assignments of " << show(a) << " gave " << show(Cl::count_assignments(map)));
}
// probability of the next item joining each group, or opening one (last entry)
static std::vector<double> next_probs(const PY & m, const Counts & c, int n) {
    std::vector<double> p;
    for (auto x : c) p.push_back(orc::exp_(py_add(ref(m), x, c.size(), n, 1)));
    p.push_back(n ? orc::exp_(py_add(ref(m), 0, c.size(), n, 1)) : 1);
    return p;
}
static std::vector<double> next_probs(const LE & m, const Counts & c, int n) {
    std::vector<double> p;
    double z = 0;
    for (auto x : c) p.push_back(orc::exp_(le_add(m.dataset_size, x, n, 1)));
    p.push_back(orc::exp_(le_add(m.dataset_size, 0, n, 1)));
    for (auto x : p) z += x;
    for (auto & x : p) x /= z;
    return p;
}
static PY any(Src & src, PY *, int) { PY m = make_py(src); if (m.d == 0 && m.alpha < 0.02) m.alpha = 0.02; return m; }
static LE any(Src & src, LE *, int n) { LE m; m.dataset_size = std::max(1, n) + (src.boolean() ? 0 : src.small(0, 1000)); NOTE(src, "LowEntropy dataset_size=" << m.dataset_size << "; "); return m; }

template<class Model> static double small_test(const Model & m, int n, int draws, rng_t & rng) {
    std::map<Counts, double> seen;
    for (int i = 0; i < draws; ++i) seen[m.sample_assignments(n, rng)] += 1;
    std::vector<double> o, e;
    std::function<void(Counts &, Counts &, double)> walk = [&](Counts & a, Counts & c, double p) {
        if (static_cast<int>(a.size()) == n) {
            auto it = seen.find(a);
            o.push_back(it == seen.end() ? 0 : it->second);
            e.push_back(p * draws);
            return;
        }
        auto q = next_probs(m, c, a.size());
        for (size_t g = 0; g < q.size(); ++g) {
            a.push_back(g);
            if (g == c.size()) c.push_back(1); else ++c[g];
            walk(a, c, p * q[g]);
            a.pop_back();
            if (--c[g] == 0) c.pop_back();
        }
    };
    Counts a, c;
    walk(a, c, 1);
    return orc::chi2_test(o, e);
}
template<class Model> static void sampled_small(Src & src) {
    int n = src.integer(2, 6);
    Model m = any(src, static_cast<Model *>(nullptr), n);
    uint32_t seed = 1 + src.draw(1000000);
    rng_t rng(seed);
    NOTE(src, "n=" << n << " seed=" << seed << "; ");
    double p = small_test(m, n, 3000, rng);
    if (p < 1e-6) {  // confirm on fresh draws
        rng_t again(seed + 7777777);
        p = small_test(m, n, 30000, again);
        REQ(p > 1e-9, "partitions of " << n << " items are not drawn from the model: p=" << p);
    }
    if (n >= 3) src.nontrivial();
}
template<class Model> static void sampled_large(Src & src) {
    int n = src.boolean(1, 20) ? src.small(0, 2) : src.boolean(1, 40) ? src.integer(400, 14000) : src.length(2, 400);
    if (n > 400) src.label("many items");
    Model m = any(src, static_cast<Model *>(nullptr), n);
    rng_t rng(1 + src.draw(1000000));
    NOTE(src, "n=" << n << "; ");
    double dev[3] = {0, 0, 0}, var[3] = {0, 0, 0};
    int reps = std::max(1, 3000 / (n + 1));
    if (reps > 200) reps = 200;
    for (int r = 0; r < reps; ++r) {
        Counts a = m.sample_assignments(n, rng);
        check_valid(a, n);
        Counts c;
        for (int i = 0; i < n; ++i) {
            auto p = next_probs(m, c, i);
            size_t watch[3] = {c.size(), 0, c.size() ? c.size() - 1 : 0};
            for (int k = 0; k < 3; ++k) if (i) {
                double q = p[watch[k]];
                dev[k] += (a[i] == static_cast<int>(watch[k])) - q;
                var[k] += q * (1 - q);
            }
            if (a[i] == static_cast<int>(c.size())) c.push_back(1); else ++c[a[i]];
            if (c.size() > 60) i = n;  // the reference is quadratic
        }
    }
    const char * what[3] = {"new groups are opened", "the first group grows", "the newest group grows"};
    for (int k = 0; k < 3; ++k) {
        // 8 standard deviations of a martingale, plus what rounding of the likelihoods may cause
        double limit = 8 * orc::sqrt_(var[k]) + 12 + 1e-4 * reps * n;
        REQ(std::fabs(dev[k]) <= limit, what[k] << " too " << (dev[k] > 0 ? "often" : "rarely") << ": off by " << dev[k] << ", limit " << limit);
    }
    if (n >= 10) src.nontrivial();
}
TARGET(C11_py_small, 0.05, "at least three items; all their partitions are compared with their probabilities") { sampled_small<PY>(src); }
TARGET(C11_le_small, 0.05, "at least three items; all their partitions are compared with their probabilities") { sampled_small<LE>(src); }
TARGET(C11_py_large, 0.3, "at least ten items") { sampled_large<PY>(src); }
TARGET(C11_le_large, 0.3, "at least ten items") { sampled_large<LE>(src); }
TARGET(C11_counting, 1, "at least two groups") {
    int n = src.length(0, 60), next = 0;
    Counts a;
    for (int i = 0; i < n; ++i) { int g = src.integer(0, next); if (g == next) ++next; a.push_back(g); }
    check_valid(a, n);
    // any item ids, inserted in any order
    Cl::Assignments map;
    Counts want(next, 0);
    for (int i = n - 1; i >= 0; --i) {
        int id = src.boolean() ? i * 65536 : static_cast<int>(src.integer(-2000000000, 2000000000));
        auto it = map.find(id);
        if (it != map.end()) { --want[it->second]; }
        map[id] = a[i]; ++want[a[i]];
    }
    bool contiguous = true;
    for (auto x : want) if (x == 0) contiguous = false;
    if (contiguous) REQ(Cl::count_assignments(map) == want, "count_assignments gave " << show(Cl::count_assignments(map)) << ", expected " << show(want));
    if (next >= 2) src.nontrivial();
}
