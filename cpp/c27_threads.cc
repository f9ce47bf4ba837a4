// C27: several threads.  Histories on objects of their own, and const operations on shared ones, run at the same
// time as in other threads, give bit for bit what they give alone.  Under ThreadSanitizer a data race ends the case.
#include "scripts.hpp"
#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>

inline std::atomic<bool> g_race(false);
#ifdef __SANITIZE_THREAD__
extern "C" __attribute__((weak)) const char * __tsan_default_options() { return "halt_on_error=0:handle_abort=0:handle_segv=0:handle_sigfpe=0:die_after_fork=0:detect_deadlocks=0:symbolize=0:exitcode=0"; }
extern "C" __attribute__((weak)) void __tsan_on_report(void *) { g_race.store(true, std::memory_order_relaxed); }
// glibc's lgamma stores a sign in a global nobody reads; without this ThreadSanitizer reports those stores
extern "C" __attribute__((weak)) float lgammaf(float x) noexcept { int sign; return lgammaf_r(x, &sign); }
extern "C" __attribute__((weak)) double lgamma(double x) noexcept { int sign; return lgamma_r(x, &sign); }
#endif

// runs job(0) .. job(n - 1) at the same time; the first failure is thrown again here
template<class F> static void in_threads(int n, F job) {
    g_race = false;
    std::atomic<int> ready(0);
    std::vector<std::string> errors(n);
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t) ts.emplace_back([&, t]() {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        try { job(t); }
        catch (eng::Fail & f) { errors[t] = f.msg; }
        catch (eng::Discard &) {}
        catch (std::exception & e) { errors[t] = std::string("exception: ") + e.what(); }
    });
    for (auto & t : ts) t.join();
    REQ(!g_race, "ThreadSanitizer reports a data race (TSAN_OPTIONS=symbolize=1 ENGINE_VERBOSE=1 shows it)");
    for (auto & e : errors) if (!e.empty()) eng::fail("in one of several threads: " + e);
}
static void same(const Trace & a, const Trace & b, const char * how) {
    size_t n = std::min(a.v.size(), b.v.size());
    for (size_t i = 0; i < n; ++i) REQ(a.v[i] == b.v[i] && a.what[i] == b.what[i], how << ": result " << i << " (" << a.what[i] << " / " << b.what[i] << ") differs from the same run alone");
    REQ_EQ(a.v.size(), b.v.size(), how << ": number of results");
}

// every thread has its own objects and generator
template<class F> static void own_objects(Src & src, F body) {
    int n = src.integer(2, 4), rounds = src.integer(1, 3);
    std::vector<Trace> alone(n);
    std::vector<uint32_t> seeds;
    std::vector<std::vector<uint64_t>> choices(n);
    bool interesting = true;
    for (int t = 0; t < n; ++t) {
        NOTE(src, "thread " << t << ": ");
        seeds.push_back(1 + src.draw(2147483645));
        size_t from = src.choices().size();
        rng_t rng(seeds[t]);
        body(src, rng, alone[t]);
        choices[t].assign(src.choices().begin() + from, src.choices().end());
        if (choices[t].size() < 6) interesting = false;
    }
    for (int r = 0; r < rounds; ++r) {
        std::vector<Trace> traces(n);
        in_threads(n, [&](int t) { Src again(choices[t], src.size()); rng_t rng(seeds[t]); body(again, rng, traces[t]); });
        for (int t = 0; t < n; ++t) same(traces[t], alone[t], "objects of its own");
    }
    if (interesting) src.nontrivial();
}

// One shared object, const operations only.  Nothing is evaluated before the threads start, so that
// anything computed on first use is computed by all of them at once.
template<class F> static void shared_object(Src & src, F op) {  // op(Src &, rng, trace): one const operation
    int n = src.integer(2, 4);
    std::vector<uint64_t> seeds;
    for (int t = 0; t < n; ++t) seeds.push_back(src.draw(1000000000));
    int ops = src.length(1, 12);
    auto run = [&](int t, Trace & trace) { Src s(seeds[t] + 1, 50); rng_t rng(1 + seeds[t]); for (int i = 0; i < ops; ++i) op(s, rng, trace); };
    std::vector<Trace> traces(n);
    in_threads(n, [&](int t) { run(t, traces[t]); });
    for (int t = 0; t < n; ++t) { Trace alone; run(t, alone); same(traces[t], alone, "a shared object"); }
    NOTE(src, n << " threads, " << ops << " operations each; ");
}

// dd mixtures document their data scores as not thread safe
template<class M> struct DataSafe { static constexpr bool value = true; };
#if PART == 1
template<int n> struct DataSafe<DirichletDiscrete<n>> { static constexpr bool value = false; };
#endif

template<class M> static void shared_group(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    more_degrees(a.shared, 0);
    Driven<A> d;
    d.init(a, rng);
    bool removed = false, rep = false;
    for (int i = src.length(0, 15); i > 0; --i) d.step(a, src, rng, removed, rep);
    Driven<A> e;
    e.init(a, rng);
    for (int i = src.length(0, 5); i > 0; --i) e.step(a, src, rng, removed, rep);
    const A & ca = a;
    const typename A::Group & g = d.g, & other = e.g;
    const typename A::Shared & s = a.shared;
    bool can = sampleable(a, d);
    typename M::Scorer scorer; scorer.init(s, g, rng);
    const typename M::Scorer & sc = scorer;
    shared_object(src, [&](Src & q, rng_t & r, Trace & t) {
        switch (q.draw(7)) {
            case 0: t.num("score_data", g.score_data(s, r)); break;
            case 1: t.num("score_value", g.score_value(s, ca.value(q), r)); break;
            case 2: { typename M::Scorer x; x.init(s, g, r); t.num("Scorer", x.eval(s, ca.value(q), r)); break; }
            case 3: t.num("shared Scorer", sc.eval(s, ca.value(q), r)); break;
            case 4: if (can) val(t, "sample_value", g.sample_value(s, r)); break;
            case 5: { typename A::GroupPb m; typename A::SharedPb p; g.protobuf_dump(m); s.protobuf_dump(p); std::string x, y; m.SerializeToString(&x); p.SerializeToString(&y); t.bytes("group dump", x); t.bytes("shared dump", y); break; }
            case 6: { typename A::Group h = g; h.merge(s, other, r); h.add_value(s, ca.value(q), r); t.num("score_data of a copy", h.score_data(s, r)); break; }
            default: g.validate(s);
        }
    });
    if (d.xs.size()) src.nontrivial();
}

template<class M, class Mix> static void shared_mixture(Src & src) {
    typedef Ad<M> A;
    rng_t rng(1 + src.draw(1000));
    A a(src, rng);
    Mix mix;
    int k = src.length(1, 40);
    mix.groups().resize(k);
    bool removed = false, rep = false;
    for (int i = 0; i < k; ++i) {
        Driven<A> d; d.init(a, rng);
        for (int n = src.length(0, 5); n > 0; --n) d.step(a, src, rng, removed, rep);
        mix.groups(i) = d.g;
    }
    mix.init(a.shared, rng);
    const Mix & c = mix;
    const A & ca = a;
    const typename A::Shared & s = a.shared;
    std::vector<typename A::Shared> grid(3, a.shared);
    constexpr bool data = std::is_same<Mix, MixtureSlave<M>>::value || DataSafe<M>::value;
    shared_object(src, [&](Src & q, rng_t & r, Trace & t) {
        size_t n = c.groups().size();
        switch (q.draw(4)) {
            case 0: case 1: { VectorFloat o(n, 0.f); c.score_value(s, ca.value(q), AlignedFloats(o.data(), n), r); for (float x : o) t.num("mixture score_value", x); break; }
            case 2: t.num("score_value_group", c.score_value_group(s, q.index(n), ca.value(q), r)); break;
            case 3: if (data) t.num("mixture score_data", c.score_data(s, r)); break;
            default: if (data && q.boolean()) { VectorFloat o(3, 0.f); c.score_data_grid(grid, AlignedFloats(o.data(), 3), r); for (float x : o) t.num("score_data_grid", x); } else c.validate(s);
        }
    });
    if (k > 1) src.nontrivial();
}

#if PART <= 1
#define X(suffix, M, w) \
    TARGET(C27_own_group_##suffix, w, "every thread works on a group of its own") { own_objects(src, group_script<M>); } \
    TARGET(C27_own_cached_##suffix, w, "every thread works on a mixture of its own") { own_objects(src, mixture_script<M, M::FastMixture>); } \
    TARGET(C27_shared_group_##suffix, 0.7 * w, "the shared group is not empty") { shared_group<M>(src); } \
    TARGET(C27_shared_cached_##suffix, w, "the shared mixture has several groups") { shared_mixture<M, M::FastMixture>(src); } \
    TARGET(C27_shared_plain_##suffix, 0.3 * w, "the shared mixture has several groups") { shared_mixture<M, MixtureSlave<M>>(src); }
#else
#define X(suffix, M, w) \
    TARGET(C27_own_group_##suffix, w, "every thread works on a group of its own") { own_objects(src, group_script<M>); } \
    TARGET(C27_shared_group_##suffix, 0.7 * w, "the shared group is not empty") { shared_group<M>(src); } \
    TARGET(C27_shared_plain_##suffix, 0.3 * w, "the shared mixture has several groups") { shared_mixture<M, MixtureSlave<M>>(src); }
#endif
FOR_MODELS

#if PART == 0
TARGET(C27_own_clustering, 1, "every thread has a driver of its own") { own_objects(src, clustering_script); }
TARGET(C27_own_random, 1, "every thread has a generator of its own") { own_objects(src, random_script); }

template<class Model> static void shared_driver(Src & src, const Model & m) {
    typename Model::Mixture driver;
    MixtureIdTracker ids;
    std::vector<int> counts;
    for (int i = src.length(0, 40); i > 0; --i) counts.push_back(src.small(0, 20));
    counts.push_back(0);
    int total = 0;
    for (int x : counts) total += x;
    driver.counts() = counts;
    driver.init(m);
    ids.init(counts.size());
    for (int i = src.length(0, 5); i > 0; --i) { ids.remove_group(src.index(ids.packed_size())); ids.add_group(); }
    const typename Model::Mixture & d = driver;
    const MixtureIdTracker & tracker = ids;
    shared_object(src, [&](Src & q, rng_t & r, Trace & t) {
        size_t n = d.counts().size();
        switch (q.draw(5)) {
            case 0: { VectorFloat o(n, 0.f); d.score_value(m, AlignedFloats(o.data(), n)); for (float x : o) t.num("driver score_value", x); break; }
            case 1: if (total) t.num("driver score_data", d.score_data(m)); break;
            case 2: for (int g : m.sample_assignments(q.integer(1, 30), r)) t.bits("sample_assignments", g); break;
            case 3: { size_t i = q.index(n); uint32_t g = tracker.packed_to_global(i); t.bits("packed_to_global", g); t.bits("global_to_packed", tracker.global_to_packed(g)); break; }
            case 4: t.num("score_add_value", m.score_add_value(q.integer(0, 20), 3, 40, 1)); t.num("score_remove_value", m.score_remove_value(q.integer(1, 20), 3, 40, 1)); break;
            default: t.bits("sample_size", d.sample_size()); t.bits("empty", d.empty_groupids().size());
        }
    });
    if (total) src.nontrivial();
}
TARGET(C27_shared_driver_py, 0.5, "the driver holds items") { Clustering<int>::PitmanYor p; p.alpha = src.f(0.01, 100); p.d = src.real(0, 0.99); shared_driver(src, p); }
TARGET(C27_shared_driver_le, 0.5, "the driver holds items") { Clustering<int>::LowEntropy p; p.dataset_size = 2000 + src.integer(0, 1000); shared_driver(src, p); }

// The library's own tables (rows of Stirling numbers, ...) as a process builds them: in several threads at once.
// Each run is a child process that has not used them before.
static Trace tables(const std::vector<std::vector<int>> & rows, bool threads) {
    std::vector<Trace> ts(rows.size());
    auto job = [&](int t) {
        rng_t rng(1 + t);
        for (int n : rows[t]) {
            std::vector<float> row;
            get_log_stirling1_row(n, row);
            for (float x : row) ts[t].num("log_stirling1_row", x);
            ts[t].num("fast_lgamma", fast_lgamma(n + 0.5f)); ts[t].num("fast_lgamma_nu", fast_lgamma_nu(n + 0.5f));
            ts[t].num("fast_log", fast_log(n + 0.5f)); ts[t].num("fast_exp", fast_exp(n * 0.25f)); ts[t].num("fast_log_factorial", fast_log_factorial(n));
            Clustering<int>::LowEntropy le; le.dataset_size = n + 1;
            ts[t].num("log_partition_function", le.log_partition_function(n + 1));
            ts[t].num("log_binom", log_binom(n + 2.f, 2.f)); ts[t].num("sample_std_normal", sample_std_normal(rng));
        }
    };
    if (threads) in_threads(rows.size(), job); else for (size_t t = 0; t < rows.size(); ++t) job(t);
    Trace all;
    for (auto & t : ts) for (size_t i = 0; i < t.v.size(); ++i) all.bits(t.what[i], t.v[i]);
    return all;
}
static std::vector<uint64_t> in_child(const std::vector<std::vector<int>> & rows, bool threads) {
    int fd[2];
    REQ(pipe(fd) == 0, "pipe");
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        std::vector<uint64_t> out;
        try { out = tables(rows, threads).v; } catch (eng::Fail &) { _exit(3); }
        const char * p = reinterpret_cast<const char *>(out.data());
        size_t left = out.size() * 8;
        while (left) { ssize_t k = write(fd[1], p, left); if (k <= 0) _exit(4); p += k; left -= k; }
        _exit(0);
    }
    close(fd[1]);
    std::string buf; char tmp[65536]; ssize_t k;
    while ((k = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, k);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    REQ(WIFEXITED(st) && WEXITSTATUS(st) == 0, "building the tables in " << (threads ? "several threads" : "one thread") << " ended the process (data race or crash)");
    std::vector<uint64_t> r(buf.size() / 8);
    if (r.size()) memcpy(r.data(), buf.data(), r.size() * 8);
    return r;
}
TARGET(C27_fresh_tables, 0.2, "at least two threads ask for different rows") {
    std::vector<std::vector<int>> rows(src.integer(2, 4));
    bool differ = false;
    for (auto & r : rows) {
        for (int i = src.integer(1, 5); i > 0; --i) r.push_back(src.integer(1, src.boolean(1, 6) ? 60 : 31));
        for (int n : r) NOTE(src, n << " ");
        NOTE(src, "| ");
        if (r != rows[0]) differ = true;
    }
    auto want = in_child(rows, false);
    for (int i = 0; i < 3; ++i) { auto got = in_child(rows, true); REQ(got == want, "tables built in several threads differ from the ones built in one"); }
    if (differ) src.nontrivial();
}
#endif
