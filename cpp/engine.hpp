// Choice-sequence property-based testing engine (a small Hypothesis for C++).
//
// A case is a pure function of a sequence of integer choices.  Generation draws
// the choices from a PRNG seeded by (VERIF_SEED, target, case index); shrinking
// edits the recorded sequence and replays it in forked children, so crashes,
// sanitizer aborts and hangs shrink exactly like assertion failures.
//
// Nothing in this header depends on floating-point flags: comparisons which must
// be right for NaN and infinity live in engine.cc, which is never compiled with
// -ffast-math.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <memory>
#include <limits>
#include <random>
#include <iostream>
#include <unordered_map>
#include <unordered_set>

namespace eng {

struct Fail { std::string msg; };
struct Discard {};

class Src {
  public:
    // generation
    Src(uint64_t seed, int size);
    // replay
    explicit Src(const std::vector<uint64_t> & choices, int size = 100);
    // fuzzer bytes
    Src(const uint8_t * data, size_t len);

    uint64_t draw(uint64_t max);                 // uniform in [0, max]; 0 is simplest
    bool boolean(int num = 1, int den = 2);      // true with probability num/den
    int64_t integer(int64_t lo, int64_t hi);     // uniform, shrinks to lo
    int64_t small(int64_t lo, int64_t hi);       // skewed to lo, reaches hi
    int length(int lo, int hi);                  // scaled by the size of the case
    double unit();                               // [0, 1] on a 2^-20 grid
    double real(double lo, double hi);           // uniform
    double logreal(double lo, double hi);        // log-uniform, sometimes a "nice" number
    float f(double lo, double hi) { return static_cast<float>(logreal(lo, hi)); }
    size_t index(size_t n) { return static_cast<size_t>(draw(n - 1)); }
    int weighted(std::initializer_list<int> weights);
    template<class T> const T & pick(const std::vector<T> & v) { return v[index(v.size())]; }

    int size() const { return size_; }
    void nontrivial() { nontrivial_ = true; }
    bool is_nontrivial() const { return nontrivial_; }
    void label(const std::string & s) { labels_.insert(s); }
    void discard() { throw Discard(); }

    bool verbose = false;
    std::ostringstream log;

    const std::vector<uint64_t> & choices() const { return rec_; }
    const std::set<std::string> & labels() const { return labels_; }
    size_t pos() const { return pos_; }

  private:
    enum Mode { GEN, REPLAY, BYTES } mode_;
    uint64_t next();
    uint64_t s_[2];
    std::vector<uint64_t> in_, rec_;
    const uint8_t * data_ = nullptr;
    size_t len_ = 0, pos_ = 0;
    int size_;
    bool nontrivial_ = false;
    std::set<std::string> labels_;
};

#define NOTE(src, expr) do { if ((src).verbose) { (src).log << expr; } } while (0)

typedef void (*TargetFn)(Src &);
struct Target {
    std::string name;
    TargetFn fn;
    double weight;      // share of the case budget
    std::string rule;   // what makes a case non-trivial
};
std::vector<Target> & targets();
struct Register {
    Register(const char * name, TargetFn fn, double weight, const char * rule) {
        targets().push_back(Target{name, fn, weight, rule});
    }
};
#define TARGET(name, weight, rule) \
    static void target_##name(eng::Src &); \
    static eng::Register register_##name(#name, target_##name, weight, rule); \
    static void target_##name(eng::Src & src)

// ---- floating point helpers, immune to -ffast-math (defined in engine.cc)
bool is_nan(double x);
bool is_nanf(float x);
bool is_finite(double x);
bool is_finitef(float x);
bool is_neg_inf(double x);
// |a - b| <= tol with NaN failing; equal infinities pass
bool near(double a, double b, double tol);
// lo - tol <= a <= hi + tol
bool within(double a, double lo, double hi, double tol);
std::string fmt(double x);

[[noreturn]] void fail(const std::string & msg);

#define REQ(cond, expr) do { if (!(cond)) { std::ostringstream m__; \
    m__ << __func__ << ": " << #cond << " violated: " << expr; ::eng::fail(m__.str()); } } while (0)
#define REQ_EQ(a, b, expr) do { auto && a__ = (a); auto && b__ = (b); if (!(a__ == b__)) { \
    std::ostringstream m__; m__ << __func__ << ": " << #a << " == " << #b << " violated: " \
    << a__ << " vs " << b__ << "; " << expr; ::eng::fail(m__.str()); } } while (0)
#define REQ_NEAR(a, b, tol, expr) do { double a__ = (a), b__ = (b), t__ = (tol); \
    if (!::eng::near(a__, b__, t__)) { std::ostringstream m__; m__ << __func__ << ": " << #a << " ~ " << #b \
    << " violated: " << ::eng::fmt(a__) << " vs " << ::eng::fmt(b__) << " (tolerance " << ::eng::fmt(t__) << "); " \
    << expr; ::eng::fail(m__.str()); } } while (0)

uint64_t hash64(const void * data, size_t len, uint64_t seed = 0);

}  // namespace eng
