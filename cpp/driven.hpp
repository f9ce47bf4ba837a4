// A group driven through a random history next to the multiset of values it should hold.
#pragma once
#include "models.hpp"

template<class A> struct Driven {
    typename A::Group g;
    std::vector<typename A::Value> xs;
    Hist h;
    void init(const A & a, rng_t & rng) { g.init(a.shared, rng); xs.clear(); }
    void add(const A & a, const typename A::Value & v, rng_t & rng) {
        g.add_value(a.shared, v, rng); xs.push_back(v); bump(v); }
    void repeat(const A & a, const typename A::Value & v, int n, rng_t & rng) {
        g.add_repeated_value(a.shared, v, n, rng);
        for (int i = 0; i < n; ++i) { xs.push_back(v); bump(v); } }
    void remove(const A & a, size_t i, rng_t & rng) {
        typename A::Value v = xs[i];
        g.remove_value(a.shared, v, rng); drop(xs, i); h.ops += 1; }
    void bump(const typename A::Value & v) { h.ops += 1; h.peak = std::max(h.peak, A::mag(v)); }
    // one random step; returns a label
    void step(const A & a, Src & src, rng_t & rng, bool & removed, bool & repeated_nonempty) {
        switch (src.weighted({5, 3, xs.empty() ? 0 : 5})) {
            case 0: { auto v = a.value(src); NOTE(src, "add " << A::show(v) << "; "); add(a, v, rng); break; }
            case 1: { auto v = xs.empty() || src.boolean() ? a.value(src) : at(xs, src.index(xs.size()));
                      int n = src.small(0, src.boolean(1, 20) ? 300 : 12); NOTE(src, "add " << A::show(v) << " x" << n << "; ");
                      if (!xs.empty() && n > 1) repeated_nonempty = true;
                      repeat(a, v, n, rng); break; }
            default: { size_t i = src.index(xs.size()); NOTE(src, "remove " << A::show(at(xs, i)) << "; ");
                       removed = true; remove(a, i, rng); }
        }
    }
};


// Sampling from a niw group draws covariances in single precision, which must stay positive definite: few degrees
// of freedom or a skewed scale matrix make them numerically singular.
template<class S> static auto more_degrees(S & s, int) -> decltype(s.psi, void()) { if (s.mu.size() > 1) s.nu += 6; }
template<class S> static void more_degrees(S &, long) {}
template<class A> static bool sampleable(const A &, const Driven<A> &) { return true; }
#if PART >= 2
template<int n> static bool sampleable(const Ad<distributions::NormalInverseWishart<n>> & a, const Driven<Ad<distributions::NormalInverseWishart<n>>> & d) {
    typedef Ad<distributions::NormalInverseWishart<n>> A;
    orc::NiwPost p = orc::niw_post(A::ref(a.shared), A::stats(a.d, d.xs, d.h));
    if (!(p.ok && p.e_logdet < 0.02 && p.nu - a.d + 1 > 1)) return false;
    if (a.d == 1) return true;
    double t = 0, ti = 0;
    for (int i = 0; i < a.d; ++i) { t += p.psi[i * a.d + i]; ti += p.psi_inv[i * a.d + i]; }
    return p.nu - a.d + 1 > 6 && t * ti < 300;
}
#endif
