// PART 0: C12 special functions, C13 vector kernels; 1: C14 discrete sampling; 2: C16 primitive samplers; 3: C20 containers.
#define DIST_THROW_ON_ERROR
#include "engine.hpp"
#include "oracle.hpp"
#include <distributions/special.hpp>
#include <distributions/random.hpp>
#include <distributions/sparse.hpp>
#include <distributions/vector.hpp>
#include <distributions/vector_math.hpp>
#if PART == 2
#include <eigen3/Eigen/Dense>
#endif
using namespace distributions;
using eng::Src;

static float from_bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
// a positive normal float with exponent in [lo, hi], near table and segment boundaries half of the time
static float any_float(Src & src, int lo, int hi) {
    uint32_t e = 127 + src.integer(lo, hi), man;
    switch (src.weighted({3, 2, 1, 1, 2})) {
        case 0: man = src.draw((1u << 23) - 1); break;
        case 1: man = ((src.draw((1u << 14) - 1) << 9) + src.integer(-2, 2)) & 0x7FFFFF; break;  // edges of the log table
        case 2: man = src.small(0, 4); break;
        case 3: man = 0x7FFFFF - src.small(0, 4); break;
        default: man = src.draw(255) << 15; break;
    }
    return from_bits((e << 23) | man);
}
static float signed_float(Src & src, int lo, int hi) { float x = any_float(src, lo, hi); return src.boolean() ? -x : x; }

static std::string show(const std::vector<float> & v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 40; ++i) s += (i ? " " : "") + eng::fmt(v[i]); return s + (v.size() > 40 ? " ...]" : "]"); }
// draws n samples with test(rng, n), which returns a p value; a small one must repeat on ten times as many fresh draws
template<class F> static void stat(Src & src, const char * what, int n, F test) {
    uint32_t seed = 1 + src.draw(2000000000);
    NOTE(src, "seed=" << seed << "; ");
    if (src.boolean(1, 40)) { n *= 12; src.label("many draws"); }
    rng_t rng(seed);
    double p = test(rng, n);
    if (p < 2e-3) {
        rng_t again((seed ^ 0x2545F491u) % 2147483646 + 1);
        double p2 = test(again, 10 * n);
        if (p2 < 1e-5) {
            rng_t third((seed ^ 0x1B873593u) % 2147483646 + 1);
            double p3 = test(third, 10 * n);
            REQ(p3 > 1e-7, what << " does not follow its distribution: p values " << p << ", " << p2 << ", " << p3);
        }
    }
}

#if PART == 0
// ---------------------------------------------------------------- C12
static double E_LGAMMA(double x) {  // accuracy of fast_lgamma, relative to 1 + |lgamma(x)|
    if (x < 2.5) return 2e-7;
    if (x < 8) return 2e-5;
    if (x < 64) return 1e-5;
    if (x < 1024) return 4e-6;
    return 2e-6;
}
static double lgamma_err(double x) { return E_LGAMMA(x) * (1 + std::fabs(orc::lgam(x))); }
#define CLOSE(f, actual, want, tol) do { double a_ = (actual), w_ = (want), t_ = (tol); if (!eng::near(a_, w_, t_)) { std::ostringstream m_; \
    m_ << f << " is " << eng::fmt(a_) << ", exact " << eng::fmt(w_) << ", tolerance " << eng::fmt(t_); eng::fail(m_.str()); } } while (0)

TARGET(C12_log, 3, "any argument") {
    float x = any_float(src, -126, 127);
    NOTE(src, "x=" << eng::fmt(x));
    double want = orc::log_(x);
    CLOSE("fast_log", fast_log(x), want, 6.6e-5 + 2e-7 * std::fabs(want));
    CLOSE("eric_log", eric_log(x), want, 6.6e-5 + 2e-7 * std::fabs(want));
    src.nontrivial();
}
TARGET(C12_exp, 3, "the result neither overflows nor underflows") {
    float x;
    switch (src.weighted({4, 3, 2, 1, 1})) {
        case 0: x = src.real(-87.3, 88.7); break;
        case 1: x = static_cast<float>(0.693147180559945 / 1024 * (src.integer(-126 * 1024 * 2, 128 * 1024 * 2 - 6) * 0.5)); break;  // edges of the exp table
        case 2: x = signed_float(src, -126, 6); break;
        case 3: x = signed_float(src, 6, 127); break;
        default: x = src.pick(std::vector<float>{0.f, 88.f, -88.f, 88.72f, 88.73f, -87.34f, -2147483648.f, 2147483648.f, -1e30f, 1e30f}); break;
    }
    NOTE(src, "x=" << eng::fmt(x));
    double got = fast_exp(x);
    if (x > 88.715) { REQ(eng::within(got, 3.3e38, 1e300, 0), "exp(" << x << ") = " << got << " is not huge"); return; }
    if (x < -87.3) { REQ(eng::within(got, 0, 1.3e-38, 0), "exp(" << x << ") = " << got << " is not tiny"); return; }
    CLOSE("fast_exp", got, orc::exp_(x), (6e-6 + 6e-8 * std::fabs(x)) * orc::exp_(x));
    src.nontrivial();
}
TARGET(C12_lse, 2, "the smaller argument matters") {
    float x = src.real(-60, 60), y = src.boolean() ? x + src.real(-20, 20) : signed_float(src, -20, 17);
    NOTE(src, "x=" << eng::fmt(x) << " y=" << eng::fmt(y));
    double m = std::max(x, y), want = m + orc::log1p_(orc::exp_(-std::fabs(double(x) - double(y))));
    double r = 2e-7 * (1 + std::fabs(m) + std::fabs(want));
    CLOSE("fast_log_sum_exp", fast_log_sum_exp(x, y), want, 8e-5 + r);
    CLOSE("log_sum_exp", log_sum_exp(x, y), want, 5e-7 + r);
    CLOSE("log_sum_exp swapped", log_sum_exp(y, x), want, 5e-7 + r);
    if (std::fabs(double(x) - y) < 15) src.nontrivial();
}
TARGET(C12_lse_vector, 1, "at least two scores") {
    int n = src.length(1, 70);
    float base = src.boolean() ? 0 : signed_float(src, -3, 20);
    double spread = src.logreal(0.01, 300);
    VectorFloat v(n);
    std::vector<float> s(n);
    double m = -1e300;
    for (int i = 0; i < n; ++i) { v[i] = s[i] = base + static_cast<float>(src.boolean(1, 30) ? -1e30 : src.real(-spread, spread)); m = std::max<double>(m, s[i]); }
    double z = 0;
    for (int i = 0; i < n; ++i) z += orc::exp_(s[i] - m);
    double want = m + orc::log_(z);
    CLOSE("log_sum_exp of a VectorFloat", log_sum_exp(v), want, 8e-5 + 3e-7 * std::fabs(m) + 1e-6 * n);
    CLOSE("log_sum_exp of a vector", log_sum_exp(s), want, 8e-5 + 3e-7 * std::fabs(m) + 1e-6 * n);
    for (int i = 0; i < n; ++i) REQ(v[i] == s[i], "log_sum_exp changed its input");
    if (n >= 2) src.nontrivial();
}
TARGET(C12_lgamma, 3, "an argument where the approximation is used") {
    float x = src.boolean(1, 4) ? 2.5f + src.integer(-3, 3) * 2.4e-7f : any_float(src, -20, 60);
    NOTE(src, "x=" << eng::fmt(x));
    CLOSE("fast_lgamma", fast_lgamma(x), orc::lgam(x), lgamma_err(x));
    if (x >= 2.5f) src.nontrivial();
}
TARGET(C12_lgamma_nu, 3, "an argument where the approximation is used") {
    float x = src.boolean(1, 4) ? 0.0625f * (1 + src.integer(-3, 3) * 1.2e-7f) : any_float(src, -14, 33);
    NOTE(src, "x=" << eng::fmt(x));
    double want = x > 1e5 ? 0.5 * orc::log_(0.5 * x) - 0.25 / x : orc::lgam(0.5 * x + 0.5) - orc::lgam(0.5 * x);
    CLOSE("fast_lgamma_nu", fast_lgamma_nu(x), want, x < 0.0625 ? 2e-6 : 2e-2);
    if (x >= 0.0625f) src.nontrivial();
}
TARGET(C12_log_beta, 1, "both arguments are positive") {
    float a = src.boolean(1, 10) ? -static_cast<float>(src.small(0, 3)) : any_float(src, -10, 24), b = src.boolean(1, 10) ? -static_cast<float>(src.small(0, 3)) : any_float(src, -10, 24);
    NOTE(src, "a=" << eng::fmt(a) << " b=" << eng::fmt(b));
    if (a <= 0 || b <= 0) {
        REQ(eng::is_neg_inf(log_beta(a, b)) && eng::is_neg_inf(fast_log_beta(a, b)), "log_beta outside of the domain is not minus infinity");
        return;
    }
    double s = static_cast<float>(a + b), mag = std::fabs(orc::lgam(a)) + std::fabs(orc::lgam(b)) + std::fabs(orc::lgam(s));
    double ds = std::fabs(orc::log_(s)) * s * 1.2e-7;  // rounding of a + b
    double want = orc::lgam(a) + orc::lgam(b) - orc::lgam(double(a) + b);
    CLOSE("log_beta", log_beta(a, b), want, 5e-7 * (1 + mag) + 2 * ds);
    CLOSE("fast_log_beta", fast_log_beta(a, b), want, lgamma_err(a) + lgamma_err(b) + lgamma_err(s) + 3e-7 * mag + 2 * ds);
    src.nontrivial();
}
TARGET(C12_log_binom, 1, "0 < k < N") {
    float N = src.boolean() ? src.small(0, 1 << 20) : src.logreal(0.1, 1e6);
    float k = src.boolean() ? std::floor(N * src.unit()) : N * src.unit();
    NOTE(src, "N=" << eng::fmt(N) << " k=" << eng::fmt(k));
    double a = orc::lgam(double(N) + 1), b = orc::lgam(double(k) + 1), c = orc::lgam(double(N) - k + 1), mag = std::fabs(a) + std::fabs(b) + std::fabs(c);
    double d = 4e-7 * (1 + N * orc::log_(N + 2.0));
    CLOSE("log_binom", log_binom(N, k), a - b - c, 5e-7 * (1 + mag) + d);
    CLOSE("fast_log_binom", fast_log_binom(N, k), a - b - c, lgamma_err(N + 1) + lgamma_err(k + 1) + lgamma_err(double(N) - k + 1) + 5e-7 * (1 + mag) + d);
    if (0 < k && k < N) src.nontrivial();
}
TARGET(C12_factorial, 1, "n is at least 2") {
    uint32_t n = src.boolean() ? src.integer(0, 130) : static_cast<uint32_t>(src.draw(31) == 0 ? 4294967294u - src.draw(3) : src.draw((1ull << (1 + src.draw(30))) - 1));
    NOTE(src, "n=" << n);
    double want = orc::lgam(n + 1.0);
    CLOSE("fast_log_factorial", fast_log_factorial(n), want, n < 64 ? 2e-7 * (1 + want) : lgamma_err(n + 1.0) + 3e-7 * want);
    if (n >= 2) src.nontrivial();
}
TARGET(C12_multigamma, 1, "at least two dimensions") {
    int d = src.length(1, 12);
    float a = 0.5f * (d - 1) + src.f(0.01, 1000);
    NOTE(src, "d=" << d << " a=" << eng::fmt(a));
    double tol = 2e-6 * d * d, mag = 0;
    for (int j = 0; j < d; ++j) {
        double x = a - 0.5 * j;
        tol += lgamma_err(x) + 2.4e-7 * a * (std::fabs(orc::log_(x)) + 1 / x);  // rounding of the argument
        mag += std::fabs(orc::lgam(x));
    }
    CLOSE("lmultigamma", lmultigamma(d, a), orc::lmultigamma(d, a), tol + 4e-7 * d * mag);
    if (d >= 2) src.nontrivial();
}
static const std::vector<std::vector<double>> & stirling() {
    static std::vector<std::vector<double>> s;
    if (s.empty()) {
        s.push_back({0});
        for (int n = 1; n <= 400; ++n) {
            std::vector<double> r(n + 1, -1e300);
            for (int k = 1; k <= n; ++k) {
                double a = k < n && n > 1 ? orc::log_(n - 1.0) + s[n - 1][k] : -1e300, b = s[n - 1][k - 1];
                double m = std::max(a, b);
                r[k] = m < -1e200 ? m : m + orc::log_(orc::exp_(a - m) + orc::exp_(b - m));
            }
            s.push_back(r);
        }
    }
    return s;
}
TARGET(C12_stirling, 0.3, "n is at least 3") {
    int n = src.boolean() ? src.integer(1, 31) : src.integer(1, 400);
    NOTE(src, "n=" << n);
    std::vector<float> a;
    VectorFloat b;
    if (src.boolean()) { a.assign(src.draw(50), 5.f); b.assign(src.draw(50), 6.f); }
    get_log_stirling1_row(n, a);
    get_log_stirling1_row(n, b);
    auto c = log_stirling1_row(n);
    const auto & want = stirling()[n];
    REQ_EQ(a.size(), want.size(), "row " << n);
    REQ_EQ(b.size(), want.size(), "row " << n);
    REQ_EQ(c.size(), want.size(), "row " << n);
    REQ(eng::is_neg_inf(a[0]) && eng::is_neg_inf(b[0]) && eng::is_neg_inf(c[0]), "entry 0 of row " << n);
    for (int k = 1; k <= n; ++k) {
        double tol = n < 32 ? 1e-6 * (1 + want[k]) : 0.065 * (1 + want[k]);
        if (k == n) tol = 0;
        CLOSE("log_stirling1_row(" << n << ")[" << k << "]", a[k], want[k], tol);
        REQ(b[k] == a[k] && c[k] == a[k], "versions of row " << n << " differ at " << k);
    }
    if (n >= 3) src.nontrivial();
}
TARGET(C12_student_t, 1, "an argument away from the centre") {
    float nu = src.f(0.05, 1e5), mu = signed_float(src, -3, 6), lambda = src.f(1e-3, 1e3);
    float x = mu + static_cast<float>(src.real(-5, 5) * (src.boolean(1, 5) ? 20 : 1)) / orc::sqrt_(lambda);
    NOTE(src, "x=" << eng::fmt(x) << " nu=" << eng::fmt(nu) << " mu=" << eng::fmt(mu) << " lambda=" << eng::fmt(lambda));
    double dx = double(x) - mu, z = 1 + lambda * dx * dx / nu;
    double lg = nu > 1e5 ? 0.5 * orc::log_(0.5 * nu) - 0.25 / nu : orc::lgam(0.5 * nu + 0.5) - orc::lgam(0.5 * nu);
    double want = lg + 0.5 * orc::log_(lambda / (3.14159265358979 * nu)) - (0.5 * nu + 0.5) * orc::log_(z);
    // x - mu, squared, and the logarithm's argument are rounded to single precision
    double dz = 3e-7 * z + 2.4e-7 * lambda * std::fabs(dx) * (std::fabs(x) + std::fabs(mu)) * 0.5 / nu;
    double arg = (0.5 * nu + 0.5) * dz / z + 1e-6 * (1 + std::fabs(want)) + 3e-7 * std::fabs(orc::lgam(0.5 * nu));
    CLOSE("score_student_t", score_student_t(x, nu, mu, lambda), want, arg + 1e-6 * (0.5 * nu + 1) * 1e-1);
    CLOSE("fast_score_student_t", fast_score_student_t(x, nu, mu, lambda), want, arg + (nu < 0.0625 ? 5e-6 : 2e-2) + 7e-5 * (0.5 * nu + 1) + 2e-6);
    if (z > 1.01) src.nontrivial();
}

// ---------------------------------------------------------------- C13
struct Buf {  // a float range at some alignment inside a guarded allocation
    VectorFloat mem;
    size_t n, off;
    std::vector<float> init;
    Buf(Src & src, size_t n_, bool aligned, float lo, float hi, bool positive) : mem(n_ + 32, 0.f), n(n_), off(aligned ? 8 : 8 + src.draw(8)) {
        for (auto & x : mem) x = -777.25f;
        for (size_t i = 0; i < n; ++i) {
            float x = src.boolean(1, 12) ? (positive ? lo : 0.f) : static_cast<float>(positive ? src.logreal(lo, hi) : src.real(lo, hi));
            mem[off + i] = x;
            init.push_back(x);
        }
    }
    float * p() { return mem.data() + off; }
    double operator[](size_t i) const { return mem[off + i]; }
    void guards(const char * f) const {
        for (size_t i = 0; i < mem.size(); ++i) if (i < off || i >= off + n)
            REQ(mem[i] == -777.25f, f << " wrote outside of its range, at offset " << (long(i) - long(off)) << " of " << n);
    }
    void unchanged(const char * f) const {
        guards(f);
        for (size_t i = 0; i < n; ++i) REQ(mem[off + i] == init[i], f << " changed its input at " << i);
    }
};
static double U(double x) { return 2.5e-7 * std::fabs(x) + 1e-37; }
#define EACH(f, buf, expr, tol) do { (buf).guards(f); for (size_t i = 0; i < n; ++i) { double want_ = (expr), tol_ = (tol); \
    REQ(eng::near((buf)[i], want_, tol_), f << " element " << i << " of " << n << " is " << eng::fmt((buf)[i]) << ", expected " << eng::fmt(want_)); } } while (0)

TARGET(C13_kernels, 4, "at least two elements") {
    size_t n = src.boolean(1, 8) ? src.draw(src.boolean(1, 25) ? 5000 : 600) : src.draw(70);
    if (n > 600) src.label("long vector");
    bool al = src.boolean();
    double span = src.logreal(0.1, 1e6);
    int op = src.draw(12);
    Buf io(src, n, al, -span, span, false), a(src, n, al, -span, span, false), b(src, n, al, -span, span, false);
    float c = static_cast<float>(src.real(-span, span));
    NOTE(src, "op=" << op << " n=" << n << " offsets " << io.off << "," << a.off << "," << b.off);
    switch (op) {
        case 0: vector_zero(n, io.p()); EACH("vector_zero", io, 0, 0); break;
        case 1: if (n) {
            float got = vector_min(n, a.p());
            float want = *std::min_element(a.init.begin(), a.init.end());
            REQ(got == want, "vector_min is " << got << ", expected " << want);
        } break;
        case 2: if (n) {
            float got = vector_max(n, a.p());
            float want = *std::max_element(a.init.begin(), a.init.end());
            REQ(got == want, "vector_max is " << got << ", expected " << want);
        } break;
        case 3: {
            double s = 0, m = 0;
            for (size_t i = 0; i < n; ++i) { s += a[i]; m += std::fabs(a[i]); }
            CLOSE("vector_sum", vector_sum(n, a.p()), s, 6e-8 * (n + 2) * m + 1e-37);
        } break;
        case 4: {
            double s = 0, m = 0;
            for (size_t i = 0; i < n; ++i) { s += a[i] * b[i]; m += std::fabs(a[i] * b[i]); }
            CLOSE("vector_dot", vector_dot(n, a.p(), b.p()), s, 6e-8 * (n + 3) * m + 1e-37);
        } break;
        case 5: vector_shift(n, io.p(), c); EACH("vector_shift", io, io.init[i] + double(c), U(io.init[i]) + U(c)); break;
        case 6: vector_scale(n, io.p(), c); EACH("vector_scale", io, io.init[i] * double(c), U(io.init[i] * double(c))); break;
        case 7: vector_negate(n, io.p()); EACH("vector_negate", io, -io.init[i], 0); break;
        case 8: vector_add(n, io.p(), a.p()); EACH("vector_add", io, io.init[i] + a[i], U(io.init[i]) + U(a[i])); break;
        case 9: vector_negate_and_add(n, io.p(), a.p()); EACH("vector_negate_and_add", io, a[i] - io.init[i], U(io.init[i]) + U(a[i])); break;
        case 10: vector_add_add(n, io.p(), a.p(), b.p()); EACH("vector_add_add", io, io.init[i] + a[i] + b[i], U(io.init[i]) + U(a[i]) + U(b[i])); break;
        case 11:
            if (src.boolean()) { vector_add_subtract(n, io.p(), a.p(), b.p()); EACH("vector_add_subtract", io, io.init[i] + a[i] - b[i], U(io.init[i]) + U(a[i]) + U(b[i])); }
            else { vector_add_subtract(n, io.p(), c, b.p()); EACH("vector_add_subtract", io, io.init[i] + double(c) - b[i], U(io.init[i]) + U(c) + U(b[i])); }
            break;
        case 12: vector_multiply_add(n, io.p(), a.p(), b.p()); EACH("vector_multiply_add", io, io.init[i] + a[i] * b[i], U(io.init[i]) + U(a[i] * b[i])); break;
    }
    a.unchanged("kernel"); b.unchanged("kernel"); io.guards("kernel");
    if (n >= 2) src.nontrivial();
}
TARGET(C13_functions, 3, "at least two elements") {
    size_t n = src.boolean(1, 8) ? src.draw(src.boolean(1, 25) ? 5000 : 600) : src.draw(70);
    if (n > 600) src.label("long vector");
    bool al = src.boolean();
    int op = src.draw(3);
    float lo = op == 0 ? -87.f : op == 1 ? 1e-30f : 0.01f, hi = op == 0 ? 88.f : op == 1 ? 1e30f : 1e7f;
    Buf in(src, n, al, lo, hi, op != 0), out(src, n, al, -1, 1, false), io(src, n, al, lo, hi, op != 0);
    for (size_t i = 0; i < n; ++i) io.mem[io.off + i] = io.init[i] = in.init[i];
    NOTE(src, "op=" << op << " n=" << n << " offsets " << in.off << "," << out.off << "," << io.off);
    const char * names[] = {"vector_exp", "vector_log", "vector_lgamma", "vector_lgamma_nu"};
    switch (op) {
        case 0: vector_exp(n, in.p(), out.p()); vector_exp(n, io.p()); EACH("vector_exp", out, orc::exp_(in[i]), (6e-6 + 6e-8 * std::fabs(in[i])) * orc::exp_(in[i])); break;
        case 1: vector_log(n, in.p(), out.p()); vector_log(n, io.p()); EACH("vector_log", out, orc::log_(in[i]), 6.6e-5 + 2e-7 * std::fabs(orc::log_(in[i]))); break;
        case 2: vector_lgamma(n, in.p(), out.p()); vector_lgamma(n, io.p()); EACH("vector_lgamma", out, orc::lgam(in[i]), lgamma_err(in[i])); break;
        case 3: vector_lgamma_nu(n, in.p(), out.p()); vector_lgamma_nu(n, io.p()); EACH("vector_lgamma_nu", out, orc::lgam(0.5 * in[i] + 0.5) - orc::lgam(0.5 * in[i]), 2.1e-2); break;
    }
    in.unchanged(names[op]);
    EACH(names[op], io, out[i], 5e-7 * (1 + std::fabs(out[i])) * (op == 0 ? orc::exp_(in[i]) : 1) + 1e-37);
    if (n >= 2) src.nontrivial();
}
TARGET(C13_storage, 1, "the vector was resized after elements were written") {
    // aligned storage keeps its alignment and contents through growth, copies, moves and swaps
    std::vector<VectorFloat> vs(1 + src.draw(4));
    std::vector<std::vector<float>> ms(vs.size());
    int ops = src.length(1, 40);
    float next = 1;
    for (int k = 0; k < ops; ++k) {
        size_t i = src.index(vs.size()), j = src.index(vs.size());
        switch (src.draw(7)) {
            case 0: vs[i].packed_add(next); ms[i].push_back(next); next += 1; break;
            case 1: { size_t n = src.draw(100); vs[i].resize(n, next); ms[i].resize(n, next); next += 1; if (n) src.nontrivial(); } break;
            case 2: if (ms[i].size()) { size_t p = src.index(ms[i].size()); vs[i].packed_remove(p); ms[i][p] = ms[i].back(); ms[i].pop_back(); } break;
            case 3: vs[i] = vs[j]; ms[i] = ms[j]; break;
            case 4: std::swap(vs[i], vs[j]); std::swap(ms[i], ms[j]); break;
            case 5: if (i != j) { vs[i] = std::move(vs[j]); vs[j].clear(); ms[i] = ms[j]; ms[j].clear(); } break;
            case 6: vs[i].packed_add() = next; ms[i].push_back(next); next += 1; break;
            case 7: vs.push_back(VectorFloat(src.draw(20), next)); ms.push_back(std::vector<float>(vs.back().size(), next)); if (vs.size() > 6) { vs.pop_back(); ms.pop_back(); } break;
        }
        for (size_t a = 0; a < vs.size(); ++a) {
            REQ(reinterpret_cast<size_t>(vs[a].data()) % 32 == 0, "storage of a VectorFloat is not aligned to 32 bytes");
            REQ(vs[a].size() == ms[a].size() && std::equal(vs[a].begin(), vs[a].end(), ms[a].begin()), "contents of vector " << a << " differ after operation " << k);
            if (vs[a].size()) {
                AlignedFloats f(vs[a]);
                REQ(f.size() == ms[a].size() && f.data() == vs[a].data() && f[f.size() - 1] == ms[a].back(), "AlignedFloats");
            }
        }
    }
}


#elif PART == 1
// ---------------------------------------------------------------- C14
// a generator whose next output is x: minstd_rand0 multiplies by 16807 modulo 2^31-1
static rng_t rng_before(uint64_t x) {
    const uint64_t m = 2147483647, inv = 1407677000;  // 16807 * inv = 1 (mod m)
    uint64_t s = x % m * inv % m;
    rng_t r;
    r.seed(s ? s : 1);
    return r;
}
struct Like { std::vector<float> l; double total; };
static Like likelihoods(Src & src, int maxdim, bool normal) {
    Like r;
    int n = src.boolean(1, 10) ? 1 : src.length(1, maxdim);
    double spread = src.logreal(0.1, normal ? 12 : 60), zero = src.boolean() ? 0 : src.unit();
    r.total = 0;
    for (int i = 0; i < n; ++i) {
        float x = src.unit() < zero ? 0.f : static_cast<float>(orc::exp_(src.real(-spread, 0)));
        r.l.push_back(x);
        r.total += x;
    }
    if (r.total == 0) { size_t i = src.index(n); r.l[i] = 1; r.total = 1; }
    if (normal) { for (auto & x : r.l) x = static_cast<float>(x / r.total); r.total = 0; for (auto x : r.l) r.total += x; }
    return r;
}
// picks the uniform number near a boundary between two outcomes, or at its extremes
static rng_t aimed(Src & src, const std::vector<float> & l, double total) {
    const double m = 2147483646;
    switch (src.weighted({2, 1, 1, 4})) {
        case 0: return rng_before(1 + src.draw(2147483645));
        case 1: return rng_before(1 + src.small(0, 300));
        case 2: return rng_before(2147483646 - src.small(0, 300));
        default: {
            size_t i = src.index(l.size());
            double c = 0;
            for (size_t k = 0; k <= i; ++k) c += l[k];
            double x = c / total * m + src.integer(-200, 200);
            return rng_before(static_cast<uint64_t>(std::min(m, std::max(1.0, x))));
        }
    }
}
static void positive(const char * f, size_t i, const std::vector<float> & l) {
    REQ(i < l.size(), f << " returned index " << i << " of " << l.size());
    REQ(l[i] > 0, f << " returned index " << i << " whose likelihood is " << l[i] << " among " << show(l));
}
TARGET(C14_range, 4, "some likelihoods are zero, or the uniform number is near a boundary") {
    bool normal = src.boolean();
    Like k = likelihoods(src, src.boolean(1, 60) ? 5000 : 300, normal);
    if (k.l.size() > 300) src.label("many outcomes");
    rng_t rng = aimed(src, k.l, k.total), r;
    VectorFloat v(k.l.size());
    std::copy(k.l.begin(), k.l.end(), v.begin());
    NOTE(src, "likelihoods " << show(k.l) << " rng " << rng << "; ");
    if (normal) {
        r = rng; positive("sample_discrete", sample_discrete(r, k.l.size(), k.l.data()), k.l);
        r = rng; positive("sample_from_probs", sample_from_probs(r, k.l), k.l);
        r = rng; positive("sample_from_probs", sample_from_probs(r, v), k.l);
    }
    r = rng; positive("sample_from_likelihoods", sample_from_likelihoods(r, k.l), k.l);
    r = rng; positive("sample_from_likelihoods", sample_from_likelihoods(r, v), k.l);
    float total = static_cast<float>(k.total);
    if (src.boolean()) total *= 1 + src.integer(-3, 3) * 1.2e-7f * std::sqrt(double(k.l.size()));  // rounding of the caller's total
    r = rng; positive("sample_from_likelihoods", sample_from_likelihoods(r, k.l, total), k.l);
    r = rng; positive("sample_from_likelihoods", sample_from_likelihoods(r, v, total), k.l);
    src.nontrivial();
}
static std::vector<float> any_scores(Src & src, int maxdim) {
    int n = src.boolean(1, 10) ? 1 : src.length(1, maxdim);
    float base = src.boolean() ? 0 : signed_float(src, -3, 22);
    double spread = src.boolean(1, 5) ? 1e5 : src.logreal(0.01, 100), low = src.boolean() ? 0 : src.unit() * 0.9;
    std::vector<float> s;
    for (int i = 0; i < n; ++i) {
        float x = base + static_cast<float>(src.real(-spread, 0));
        if (src.unit() < low) x = src.pick(std::vector<float>{-1e4f, -1e6f, -3e9f, -1e12f, -1e30f, -3e38f, -std::numeric_limits<float>::infinity()}) + (src.boolean() ? base : 0);
        s.push_back(x);
    }
    bool any = false;
    for (auto x : s) if (x > -1e29f) any = true;
    if (!any) s[src.index(n)] = base;
    return s;
}
TARGET(C14_scores, 4, "at least two indices can be drawn") {
    std::vector<float> s = any_scores(src, src.boolean(1, 60) ? 5000 : 200);
    if (s.size() > 200) src.label("many outcomes");
    const size_t n = s.size();
    double m = -1e300, z = 0;
    for (auto x : s) if (x > m) m = x;
    std::vector<double> like(n);
    int live = 0;
    for (size_t i = 0; i < n; ++i) { like[i] = s[i] < -2e38f ? 0 : orc::exp_(s[i] - m); z += like[i]; live += like[i] > 1e-6; }
    std::vector<float> fl(like.begin(), like.end());
    rng_t rng = aimed(src, fl, z), r;
    VectorFloat v(n), w;
    std::copy(s.begin(), s.end(), v.begin());
    NOTE(src, "scores " << show(s) << " rng " << rng << "; ");
    std::vector<float> lib = s;  // the library's own likelihoods, compared with the exact ones below
    scores_to_likelihoods(lib);
    auto ok = [&](const char * f, size_t i) {
        REQ(i < n, f << " returned index " << i << " of " << n);
        REQ(lib[i] > 0, f << " returned index " << i << " whose score is " << s[i] << " while the largest is " << m);
    };
    r = rng; ok("sample_from_scores", sample_from_scores(r, s));
    r = rng; ok("sample_from_scores", sample_from_scores(r, v));
    for (size_t i = 0; i < n; ++i) REQ(v[i] == s[i], "sample_from_scores changed its input");
    r = rng; w = v; size_t a = sample_from_scores_overwrite(r, w); ok("sample_from_scores_overwrite", a);
    std::vector<float> q = s;
    r = rng; auto pr = sample_prob_from_scores_overwrite(r, q);
    ok("sample_prob_from_scores_overwrite", pr.first);
    double rel = 2e-5 + 1e-7 * n;
    double p = like[pr.first] / z;
    REQ_NEAR(pr.second, p, rel * p + 1e-37, "probability of the sampled index " << pr.first);
    r = rng; w = v; auto pw = sample_prob_from_scores_overwrite(r, w);
    ok("sample_prob_from_scores_overwrite", pw.first);
    REQ_NEAR(pw.second, like[pw.first] / z, rel * like[pw.first] / z + 1e-37, "probability of the sampled index " << pw.first);
    size_t at = src.boolean() ? pr.first : src.index(n);
    if (like[at] > 1e-300) {
        double want = s[at] - m - orc::log_(z), tol = rel + 2e-7 * (std::fabs(s[at] - m) + std::fabs(m) * 0 + std::fabs(want)) + 2e-4 * 0;
        q = s; r = rng; REQ_NEAR(score_from_scores_overwrite(r, at, q), want, tol, "score of index " << at);
        w = v; r = rng; REQ_NEAR(score_from_scores_overwrite(r, at, w), want, tol, "score of index " << at);
    }
    q = s;
    double total = scores_to_likelihoods(q);
    REQ_NEAR(total, z, rel * z, "total likelihood");
    for (size_t i = 0; i < n; ++i) REQ_NEAR(q[i], like[i], (6e-6 + 6e-8 * std::min(100.0, std::fabs(s[i] - m))) * like[i] + 1.3e-38, "likelihood of index " << i);
    q = s; w = v;
    scores_to_probs(q); scores_to_probs(w);
    double sum = 0;
    for (size_t i = 0; i < n; ++i) {
        REQ_NEAR(q[i], like[i] / z, rel * like[i] / z + 1.3e-38, "probability of index " << i);
        REQ_NEAR(w[i], like[i] / z, rel * like[i] / z + 1.3e-38, "probability of index " << i);
        sum += q[i];
    }
    REQ_NEAR(sum, 1, 1e-6 + 1e-7 * n, "sum of the probabilities");
    if (live >= 2) src.nontrivial();
}
TARGET(C14_frequency, 0.02, "at least two indices can be drawn") {
    bool scores = src.boolean();
    std::vector<double> like;
    std::vector<float> s, l;
    VectorFloat v, vl;
    if (scores) {
        s = any_scores(src, 40);
        double m = -1e300;
        for (auto x : s) if (x > m) m = x;
        for (auto x : s) like.push_back(x < -2e38f ? 0 : orc::exp_(x - m));
    } else {
        Like k = likelihoods(src, 40, true);
        l = k.l;
        like.assign(l.begin(), l.end());
    }
    const size_t n = like.size();
    v.resize(s.size()); std::copy(s.begin(), s.end(), v.begin());
    vl.resize(l.size()); std::copy(l.begin(), l.end(), vl.begin());
    double z = 0;
    int live = 0;
    for (auto x : like) { z += x; }
    for (auto x : like) live += x > 0.01 * z;
    int which = src.draw(4);
    NOTE(src, (scores ? "scores " + show(s) : "probs " + show(l)) << " sampler " << which << "; ");
    stat(src, "a discrete sampler", 2000, [&](rng_t & rng, int draws) {
        std::vector<double> o(n, 0), e(n);
        std::vector<float> q;
        VectorFloat w;
        for (int i = 0; i < draws; ++i) {
            size_t k;
            if (scores) switch (which) {
                case 0: k = sample_from_scores(rng, s); break;
                case 1: k = sample_from_scores(rng, v); break;
                case 2: q = s; k = sample_from_scores_overwrite(rng, q); break;
                case 3: q = s; k = sample_prob_from_scores_overwrite(rng, q).first; break;
                default: w = v; k = sample_prob_from_scores_overwrite(rng, w).first; break;
            } else switch (which) {
                case 0: k = sample_discrete(rng, n, l.data()); break;
                case 1: k = sample_from_likelihoods(rng, l); break;
                case 2: k = sample_from_likelihoods(rng, vl); break;
                case 3: k = sample_from_probs(rng, l); break;
                default: k = sample_from_likelihoods(rng, vl, static_cast<float>(z)); break;
            }
            REQ(k < n, "index " << k << " of " << n);
            o[k] += 1;
        }
        for (size_t i = 0; i < n; ++i) e[i] = draws * like[i] / z;
        return orc::chi2_test(o, e);
    });
    if (live >= 2) src.nontrivial();
}
TARGET(C14_urn, 0.01, "at least three positions") {
    int n = src.integer(1, 12);
    std::vector<int> urn;
    for (int i = 0; i < n; ++i) urn.push_back(i);
    stat(src, "sample_from_urn", 2000, [&](rng_t & rng, int draws) {
        std::vector<double> o(n, 0), e(n, draws / double(n));
        for (int i = 0; i < draws; ++i) { int k = sample_from_urn(rng, urn); REQ(0 <= k && k < n, "not a member of the urn: " << k); o[k] += 1; }
        return orc::chi2_test(o, e);
    });
    if (n >= 2) stat(src, "sample_pair_from_urn", 4000, [&](rng_t & rng, int draws) {
        std::vector<double> o(n * (n - 1), 0), e(n * (n - 1), draws / double(n * (n - 1)));
        for (int i = 0; i < draws; ++i) {
            auto k = sample_pair_from_urn(rng, urn);
            REQ(0 <= k.first && k.first < n && 0 <= k.second && k.second < n, "not members of the urn: " << k.first << ", " << k.second);
            REQ(k.first != k.second, "the same position twice: " << k.first);
            o[k.first * (n - 1) + k.second - (k.second > k.first)] += 1;
        }
        return orc::chi2_test(o, e);
    });
    if (n >= 3) src.nontrivial();
}
TARGET(C14_urn_members, 1, "the urn holds repeated values") {
    int n = src.integer(1, 400);
    std::vector<std::string> urn;
    bool repeated = false;
    for (int i = 0; i < n; ++i) { urn.push_back(std::to_string(src.draw(50))); if (std::count(urn.begin(), urn.end(), urn.back()) > 1) repeated = true; }
    rng_t rng = src.boolean() ? rng_before(src.boolean() ? 1 + src.small(0, 3) : 2147483646 - src.small(0, 3)) : rng_before(1 + src.draw(2147483645));
    for (int k = 0; k < 10; ++k) {
        auto x = sample_from_urn(rng, urn);
        REQ(std::count(urn.begin(), urn.end(), x), "not a member: " << x);
        if (n >= 2) {
            auto p = sample_pair_from_urn(rng, urn);
            REQ(std::count(urn.begin(), urn.end(), p.first) && std::count(urn.begin(), urn.end(), p.second), "not members");
            if (p.first == p.second) REQ(std::count(urn.begin(), urn.end(), p.first) >= 2, "one position twice");
        }
    }
    if (repeated) src.nontrivial();
}


#elif PART == 2
// ---------------------------------------------------------------- C16
typedef Eigen::VectorXf Vec;
typedef Eigen::MatrixXf Mat;
struct KS {  // values with their rounding, against a CDF
    std::vector<double> lo, hi;
    template<class F> void add(F cdf, double x, double d) { lo.push_back(cdf(x - d)); hi.push_back(cdf(x + d)); }
    double p() const { return orc::ks_interval(lo, hi); }
};
static double chi2_cdf(double x, double k) { return orc::gamma_cdf(0.5 * x, 0.5 * k); }
static double cdf_gamma(double x, double a) { return x <= 0 ? 0 : orc::gamma_cdf(x, a); }

// tiny success probabilities: x p is nearly gamma distributed; what exceeds an int saturates
TARGET(C16_negative_binomial_tail, 0.5, "some draws saturate") {
    float p = src.boolean(1, 4) ? 0.f : static_cast<float>(orc::pow_(10, src.real(-30, -5)));
    int r = src.small(1, 30);
    NOTE(src, "p=" << eng::fmt(p) << " r=" << r << "; ");
    bool some = false;
    stat(src, "sample_negative_binomial", 1000, [&](rng_t & rng, int n) {
        KS k;
        for (int i = 0; i < n; ++i) {
            int x = sample_negative_binomial(rng, p, r);
            REQ(x >= 0, "sample_negative_binomial gave " << x);
            double lo = cdf_gamma((x - 6 * orc::sqrt_(x + 1.0) - 30) * double(p), r), hi = cdf_gamma((x + 6 * orc::sqrt_(x + 1.0) + 30) * double(p), r);
            if (x == 2147483647) { hi = 1; some = true; lo = cdf_gamma(2.1e9 * double(p), r); }
            k.lo.push_back(lo); k.hi.push_back(hi);
        }
        return k.p();
    });
    if (some) src.nontrivial();
}
TARGET(C16_uniform, 1, "the range holds at least two integers") {
    int lo = src.boolean() ? src.integer(-5, 5) : static_cast<int>(src.integer(-2000000000, 2000000000));
    int64_t width = src.boolean() ? src.small(1, 40) : src.integer(1, 2000000);
    int hi = static_cast<int>(std::min<int64_t>(2147483647, lo + width - 1));
    width = int64_t(hi) - lo + 1;
    NOTE(src, "sample_int " << lo << " to " << hi << "; ");
    stat(src, "sample_int", 2000, [&](rng_t & rng, int n) {
        std::vector<double> o(std::min<int64_t>(width, 41), 0);
        KS ks;
        for (int i = 0; i < n; ++i) {
            int x = sample_int(rng, lo, hi);
            REQ(lo <= x && x <= hi, "sample_int(" << lo << ", " << hi << ") gave " << x);
            if (width <= 40) o[x - lo] += 1;
            else { ks.lo.push_back((double(x) - lo) / width); ks.hi.push_back((double(x) - lo + 1) / width); }
        }
        if (width <= 40) { o.resize(width); return orc::chi2_test(o, std::vector<double>(width, n / double(width))); }
        return ks.p();
    });
    stat(src, "sample_unif01", 2000, [&](rng_t & rng, int n) {
        KS ks;
        for (int i = 0; i < n; ++i) { float x = sample_unif01(rng); REQ(x >= 0 && x < 1, "sample_unif01 gave " << eng::fmt(x)); ks.add([](double x) { return std::min(1.0, std::max(0.0, x)); }, x, 1e-7); }
        return ks.p();
    });
    if (width > 1) src.nontrivial();
}
// one item, or an ordered pair of different ones, all equally likely
TARGET(C16_urn, 1, "at least three items") {
    int k = src.boolean(1, 8) ? src.integer(13, src.boolean(1, 3) ? 300000 : 3000) : src.small(1, 12);
    int64_t offset = src.integer(-1000, 1000);
    NOTE(src, "urn of " << k << "; ");
    std::vector<int64_t> urn(k);
    for (int i = 0; i < k; ++i) urn[i] = offset + 3 * i;
    auto index = [&](int64_t x) { int64_t i = (x - offset) / 3; REQ(i >= 0 && i < k && urn[i] == x, "drew " << x << ", which is not in the urn"); return i; };
    stat(src, "sample_from_urn", 2000, [&](rng_t & rng, int n) {
        std::vector<double> o(k, 0);
        KS ks;
        for (int t = 0; t < n; ++t) { auto i = index(sample_from_urn(rng, urn)); o[i] += 1; ks.lo.push_back(double(i) / k); ks.hi.push_back((i + 1.) / k); }
        if (k == 1) return 1.0;
        return k <= 12 ? orc::chi2_test(o, std::vector<double>(k, n / double(k))) : ks.p();
    });
    if (k >= 2) stat(src, "sample_pair_from_urn", 3000, [&](rng_t & rng, int n) {
        std::vector<double> o(k <= 12 ? k * k : 0, 0);
        KS first, second, gap;
        for (int t = 0; t < n; ++t) {
            auto p = sample_pair_from_urn(rng, urn);
            auto i = index(p.first), j = index(p.second);
            REQ(i != j, "sample_pair_from_urn drew item " << i << " twice");
            if (k <= 12) { o[i * k + j] += 1; continue; }
            first.lo.push_back(double(i) / k); first.hi.push_back((i + 1.) / k);
            second.lo.push_back(double(j) / k); second.hi.push_back((j + 1.) / k);
            auto g = (j - i + k) % k - 1;
            gap.lo.push_back(double(g) / (k - 1)); gap.hi.push_back((g + 1.) / (k - 1));
        }
        if (k > 12) return std::min(1.0, 3 * std::min(first.p(), std::min(second.p(), gap.p())));
        std::vector<double> seen;
        for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) if (i != j) seen.push_back(o[i * k + j]);
        return orc::chi2_test(seen, std::vector<double>(seen.size(), n / double(seen.size())));
    });
    if (k >= 3) src.nontrivial();
}
TARGET(C16_bernoulli, 1, "0 < p < 1") {
    float p = src.boolean(1, 8) ? src.draw(1) : src.boolean() ? src.unit() : src.f(1e-3, 1);
    NOTE(src, "bernoulli " << eng::fmt(p) << "; ");
    stat(src, "sample_bernoulli", 4000, [&](rng_t & rng, int n) {
        double c = 0;
        for (int i = 0; i < n; ++i) c += sample_bernoulli(rng, p);
        if (p == 0 || p == 1) { REQ(c == n * double(p), "sample_bernoulli(" << p << ") gave " << c << " of " << n); return 1.0; }
        if (n * p * (1 - p) < 5) return std::fabs(c - n * double(p)) > 40 ? 0.0 : 1.0;
        return orc::chi2_test({c, n - c}, {n * double(p), n * (1 - double(p))});
    });
    if (0 < p && p < 1) src.nontrivial();
}
TARGET(C16_normal, 1, "the variance is not 1") {
    float mean = signed_float(src, -5, 8), var = src.f(1e-4, 1e6);
    NOTE(src, "normal " << eng::fmt(mean) << ", " << eng::fmt(var) << "; ");
    double sd = orc::sqrt_(var);
    auto cdf = [&](double x) { return orc::norm_cdf((x - mean) / sd); };
    stat(src, "sample_normal", 2000, [&](rng_t & rng, int n) {
        KS ks;
        for (int i = 0; i < n; ++i) { double x = sample_normal(rng, mean, var); ks.add(cdf, x, 1.5e-7 * (std::fabs(x) + std::fabs(mean))); }
        return ks.p();
    });
    stat(src, "sample_std_normal", 1000, [&](rng_t & rng, int n) {
        KS ks;
        for (int i = 0; i < n; ++i) ks.add([](double x) { return orc::norm_cdf(x); }, sample_std_normal(rng), 1e-6);
        return ks.p();
    });
    if (var != 1) src.nontrivial();
}
TARGET(C16_gamma, 1, "any parameters") {
    float a = src.boolean(1, 6) ? src.f(5e-4, 0.02) : src.f(0.02, 500), b = src.f(0.01, 100);
    bool unit = src.boolean(1, 3);
    NOTE(src, "gamma " << eng::fmt(a) << ", " << eng::fmt(b) << "; ");
    stat(src, "sample_gamma", 1500, [&](rng_t & rng, int n) {
        KS ks;
        for (int i = 0; i < n; ++i) {
            double x = unit ? sample_gamma(rng, a) : sample_gamma(rng, a, b);
            REQ(x >= 0, "sample_gamma gave " << x);
            ks.add([&](double x) { return cdf_gamma(unit ? x : x / b, a); }, x, 2e-7 * x + 2e-38);
        }
        return ks.p();
    });
    float nu = src.f(0.05, 500);
    NOTE(src, "chisq " << eng::fmt(nu) << "; ");
    stat(src, "sample_chisq", 1500, [&](rng_t & rng, int n) {
        KS ks;
        for (int i = 0; i < n; ++i) {
            double x = sample_chisq(rng, nu);
            REQ(x >= 0, "sample_chisq gave " << x);
            ks.add([&](double x) { return cdf_gamma(0.5 * x, 0.5 * nu); }, x, 2e-7 * x + 2e-38);
        }
        return ks.p();
    });
    src.nontrivial();
}
TARGET(C16_counts, 1, "any parameters") {
    float mean = src.f(0.01, 300), p = src.boolean(1, 10) ? 1.f : static_cast<float>(src.real(0.02, 1));
    int r = src.integer(1, 30);
    NOTE(src, "poisson " << eng::fmt(mean) << "; ");
    const int K = 4000;
    stat(src, "sample_poisson", 2000, [&](rng_t & rng, int n) {
        std::vector<double> o(K, 0), e(K);
        double sum = 0;
        for (int i = 0; i < n; ++i) { int x = sample_poisson(rng, mean); REQ(x >= 0, "sample_poisson gave " << x); o[std::min(x, K - 1)] += 1; sum += x; }
        for (int k = 0; k < K; ++k) e[k] = n * orc::poisson_pmf(k, mean);
        // the average is sensitive to shifts that the counts hide
        double z = n * double(mean) < 400 ? 0 : (sum - n * double(mean)) / std::sqrt(n * double(mean));
        return std::min(1.0, 2 * std::min(orc::chi2_test(o, e), std::erfc(std::fabs(z) / std::sqrt(2.0))));
    });
    NOTE(src, "negative binomial " << eng::fmt(p) << ", " << r << "; ");
    stat(src, "sample_negative_binomial", 2000, [&](rng_t & rng, int n) {
        std::vector<double> o(K, 0), e(K);
        double sum = 0, mu = r * (1 - double(p)) / p, var = mu / p;
        for (int i = 0; i < n; ++i) { int x = sample_negative_binomial(rng, p, r); REQ(x >= 0, "sample_negative_binomial gave " << x); o[std::min(x, K - 1)] += 1; sum += x; }
        for (int k = 0; k < K; ++k) e[k] = n * orc::negbin_pmf(k, p, r);
        double z = n * mu < 400 ? 0 : (sum - n * mu) / std::sqrt(n * var);
        return std::min(1.0, 2 * std::min(orc::chi2_test(o, e), std::erfc(std::fabs(z) / std::sqrt(2.0))));
    });
    src.nontrivial();
}
TARGET(C16_beta, 1, "any parameters") {
    // tiny parameters make the gamma samples behind sample_beta underflow
    bool tiny = src.boolean(1, 4);
    float a = tiny ? src.f(1e-4, 0.05) : src.f(0.05, 200), b = src.boolean(1, 5) ? a : tiny && src.boolean(3, 4) ? src.f(1e-4, 0.05) : src.f(0.05, 200), min = src.boolean() ? 0 : src.f(1e-5, 2);
    NOTE(src, "beta " << eng::fmt(a) << ", " << eng::fmt(b) << " min " << eng::fmt(min) << "; ");
    stat(src, "sample_beta", 1500, [&](rng_t & rng, int n) {
        KS ks;
        for (int i = 0; i < n; ++i) {
            double x = sample_beta(rng, a, b);
            REQ(x >= 0 && x <= 1, "sample_beta gave " << eng::fmt(x));
            ks.add([&](double x) { return orc::beta_cdf(x, a, b); }, x, 4e-7 * x + 1e-6);
        }
        return ks.p();
    });
    stat(src, "sample_beta_safe", 1500, [&](rng_t & rng, int n) {
        KS ks;
        double m = min;
        for (int i = 0; i < n; ++i) {
            double x = sample_beta_safe(rng, a, b, min);
            REQ(eng::within(x, m / (1 + m), 1, 2e-7), "sample_beta_safe gave " << eng::fmt(x) << " with min_value " << eng::fmt(min));
            ks.add([&](double x) { return orc::beta_cdf(x * (1 + m) - m, a, b); }, x, 4e-7 * (x + m / (1 + m)) + 1e-6);
        }
        return ks.p();
    });
    src.nontrivial();
}
TARGET(C16_dirichlet, 1, "at least two positive parameters") {
    int d = src.boolean(1, 10) ? 1 : src.length(1, 30);
    std::vector<float> a(d);
    double A = 0, sub = 0;
    std::vector<bool> in(d);
    int live = 0;
    int tiny = src.weighted({4, 1, 1});  // parameters whose gamma samples underflow: none, some or all of them
    for (int i = 0; i < d; ++i) { a[i] = src.boolean(1, 10) ? 0 : tiny == 2 || (tiny && src.boolean()) ? src.f(1e-4, 0.05) : src.f(0.05, 30); }
    if (std::count(a.begin(), a.end(), 0.f) == d) a[0] = 1;
    for (int i = 0; i < d; ++i) { A += a[i]; in[i] = src.boolean(); if (in[i]) sub += a[i]; live += a[i] > 0; }
    bool alias = src.boolean();
    float min = src.boolean(1, 3) ? 0 : src.f(1e-5, 1);
    if (tiny && src.boolean()) min = 0;
    NOTE(src, "dirichlet " << show(a) << " min " << eng::fmt(min) << "; ");
    stat(src, "sample_dirichlet", 1000, [&](rng_t & rng, int n) {
        KS ks;
        std::vector<float> p(d);
        for (int i = 0; i < n; ++i) {
            if (alias) { p = a; sample_dirichlet(rng, d, p.data(), p.data()); }
            else sample_dirichlet(rng, d, a.data(), p.data());
            double sum = 0, s = 0;
            for (int k = 0; k < d; ++k) {
                REQ(p[k] >= 0, "probability " << eng::fmt(p[k]));
                if (a[k] == 0) REQ(p[k] == 0, "probability " << eng::fmt(p[k]) << " where alpha is 0");
                sum += p[k];
                if (in[k]) s += p[k];
            }
            REQ_NEAR(sum, 1, 1e-6 + 1e-7 * d, "sum of sample_dirichlet");
            if (sub > 0 && sub < A) ks.add([&](double x) { return orc::beta_cdf(x, sub, A - sub); }, s, (4e-7 + 1.2e-7 * d) * s + 1e-6);
        }
        return ks.lo.size() ? ks.p() : 1.0;
    });
    bool ok = min > 0 || live == d;
    if (ok) stat(src, "sample_dirichlet_safe", 1000, [&](rng_t & rng, int n) {
        KS ks;
        std::vector<float> p(d);
        double scale = 1 + double(min) * d, bound = min / scale;
        for (int i = 0; i < n; ++i) {
            if (alias) { p = a; sample_dirichlet_safe(rng, d, p.data(), p.data(), min); }
            else sample_dirichlet_safe(rng, d, a.data(), p.data(), min);
            double sum = 0, s = 0;
            for (int k = 0; k < d; ++k) {
                REQ(p[k] >= bound * (1 - 1e-5), "sample_dirichlet_safe gave " << eng::fmt(p[k]) << " below its bound " << eng::fmt(bound));
                sum += p[k];
                if (in[k]) s += p[k] ;
            }
            REQ_NEAR(sum, 1, 1e-6 + 3e-7 * d, "sum of sample_dirichlet_safe");
            if (min == 0 && sub > 0 && sub < A) ks.add([&](double x) { return orc::beta_cdf(x, sub, A - sub); }, s, (4e-7 + 1.2e-7 * d) * s + 1e-6);
        }
        return ks.lo.size() ? ks.p() : 1.0;
    });
    if (live >= 2) src.nontrivial();
}
static Mat spd(Src & src, int d) {
    Mat A(d, d), S;
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) A(i, j) = src.real(-1, 1);
    S = A * A.transpose() + 0.3f * Mat::Identity(d, d);
    float s = src.f(0.05, 20);
    return s * S;
}
static Vec direction(Src & src, int d) { Vec v(d); for (int i = 0; i < d; ++i) v(i) = src.real(-1, 1); if (v.norm() < 0.1f) v(src.index(d)) += 1; return v; }
TARGET(C16_multivariate_normal, 1, "at least two dimensions") {
    int d = src.integer(1, 5);
    Mat S = spd(src, d);
    Vec mu = direction(src, d) * static_cast<float>(src.f(0.1, 50)), a = direction(src, d), b = S.inverse() * a;
    NOTE(src, "mvn d=" << d << "; ");
    double m = a.dot(mu), sd = orc::sqrt_((a.transpose() * S * a)(0, 0)), m2 = b.dot(mu), sd2 = orc::sqrt_((b.transpose() * S * b)(0, 0));
    double round = 1e-6 * d * (a.norm() * (mu.norm() + 4 * orc::sqrt_(S.trace())));
    stat(src, "sample_multivariate_normal", 1000, [&](rng_t & rng, int n) {
        KS k1, k2;
        for (int i = 0; i < n; ++i) {
            Vec x = sample_multivariate_normal(mu, S, rng);
            REQ(x.size() == d, "dimension " << x.size());
            k1.add([&](double x) { return orc::norm_cdf((x - m) / sd); }, a.dot(x), round);
            k2.add([&](double x) { return orc::norm_cdf((x - m2) / sd2); }, b.dot(x), round * b.norm() / a.norm());
        }
        return std::min(1.0, 2 * std::min(k1.p(), k2.p()));
    });
    if (d >= 2) src.nontrivial();
}
TARGET(C16_wishart, 1, "at least two dimensions") {
    int d = src.integer(1, 4);
    Mat S = spd(src, d), Sinv = S.inverse();
    float nu = d - 1 + src.f(0.7, 60);
    Vec a = direction(src, d);
    NOTE(src, "wishart d=" << d << " nu=" << eng::fmt(nu) << "; ");
    double q = (a.transpose() * S * a)(0, 0), qi = (a.transpose() * Sinv * a)(0, 0);
    stat(src, "sample_wishart", 1000, [&](rng_t & rng, int n) {
        KS k1, k2;
        for (int i = 0; i < n; ++i) {
            Mat W = sample_wishart(nu, S, rng);
            REQ(W.rows() == d && W.cols() == d, "dimensions");
            for (int x = 0; x < d; ++x) for (int y = 0; y < x; ++y) REQ_NEAR(W(x, y), W(y, x), 1e-5 * (std::fabs(W(x, x)) + std::fabs(W(y, y))), "not symmetric");
            // a'Wa / a'Sa ~ chi2(nu), a'S^-1 a / a'W^-1 a ~ chi2(nu - d + 1)
            double t = (a.transpose() * W * a)(0, 0) / q;
            k1.add([&](double x) { return chi2_cdf(std::max(0.0, x), nu); }, t, 1e-5 * std::fabs(t) + 1e-6);
            Eigen::MatrixXd Wd = W.cast<double>();
            Eigen::VectorXd ad = a.cast<double>();
            double wi = ad.dot(Wd.ldlt().solve(ad));
            double t2 = qi / wi;
            double cond = Wd.norm() * Wd.inverse().norm() * 3e-7;
            if (cond < 0.05) k2.add([&](double x) { return chi2_cdf(std::max(0.0, x), nu - d + 1); }, t2, (1e-5 + cond) * std::fabs(t2));
            else { k2.lo.push_back(0); k2.hi.push_back(1); }
        }
        return std::min(1.0, 2 * std::min(k1.p(), k2.p()));
    });
    Mat psi = S;
    stat(src, "sample_inverse_wishart", 1000, [&](rng_t & rng, int n) {
        KS k1, k2;
        for (int i = 0; i < n; ++i) {
            Mat W = sample_inverse_wishart(nu, psi, rng);
            REQ(W.rows() == d && W.cols() == d, "dimensions");
            Eigen::MatrixXd Wd = W.cast<double>();
            Eigen::VectorXd ad = a.cast<double>();
            double cond = Wd.norm() * Wd.inverse().norm() * 1e-6;
            double t = q / ad.dot(Wd * ad);  // chi2(nu - d + 1)
            double t2 = ad.dot(Wd.ldlt().solve(ad)) / qi;  // chi2(nu)
            if (cond < 0.02 && t > 0) {
                k1.add([&](double x) { return chi2_cdf(std::max(0.0, x), nu - d + 1); }, t, (1e-5 + cond) * std::fabs(t));
                k2.add([&](double x) { return chi2_cdf(std::max(0.0, x), nu); }, t2, (1e-5 + 3 * cond) * std::fabs(t2));
            } else { k1.lo.push_back(0); k1.hi.push_back(1); k2.lo.push_back(0); k2.hi.push_back(1); }
        }
        return std::min(1.0, 2 * std::min(k1.p(), k2.p()));
    });
    float lambda = src.f(0.1, 50);
    Vec mu0 = direction(src, d);
    NOTE(src, "niw lambda=" << eng::fmt(lambda) << "; ");
    float nu2 = d + 1 + src.f(0.5, 60);
    stat(src, "sample_normal_inverse_wishart", 1000, [&](rng_t & rng, int n) {
        KS k1, k2;
        for (int i = 0; i < n; ++i) {
            auto s = sample_normal_inverse_wishart(mu0, lambda, psi, nu2, rng);
            REQ(s.first.size() == d && s.second.rows() == d && s.second.cols() == d, "dimensions");
            Eigen::MatrixXd Wd = s.second.template cast<double>();
            Eigen::VectorXd ad = a.cast<double>(), diff = (s.first - mu0).template cast<double>();
            double v = ad.dot(Wd * ad);
            double z = orc::sqrt_(lambda) * ad.dot(diff) / orc::sqrt_(std::max(1e-30, v));  // N(0, 1)
            double t = q / v;
            double cond = Wd.norm() * Wd.inverse().norm() * 1e-6;
            k1.add([](double x) { return orc::norm_cdf(x); }, z, 1e-4 + cond + 3e-6 * (1 + mu0.norm()) * orc::sqrt_(lambda / std::max(1e-9, v)));
            if (cond < 0.02) k2.add([&](double x) { return chi2_cdf(std::max(0.0, x), nu2 - d + 1); }, t, (1e-5 + cond) * std::fabs(t));
            else { k2.lo.push_back(0); k2.hi.push_back(1); }
        }
        return std::min(1.0, 2 * std::min(k1.p(), k2.p()));
    });
    if (d >= 2) src.nontrivial();
}


#elif PART == 3
// ---------------------------------------------------------------- C20
template<class Key> static Key any_key(Src & src, int style) {
    switch (style) {
        case 0: return static_cast<Key>(src.small(0, 12));
        case 1: return static_cast<Key>(static_cast<Key>(src.draw(6)) << (8 * sizeof(Key) - 4));
        case 2: return static_cast<Key>(static_cast<Key>(src.draw(15)) * static_cast<Key>(65536));
        case 3: return std::numeric_limits<Key>::max() - static_cast<Key>(src.draw(6));
        case 4: return std::numeric_limits<Key>::min() + static_cast<Key>(src.draw(6));
        default: return static_cast<Key>(src.draw(~0ull));
    }
}
template<class Key, class Value> struct CounterModel {
    std::map<Key, Value> m;
    Value total = 0;
};
template<class Key, class Value> static void check_counter(const SparseCounter<Key, Value> & c, const std::map<Key, Value> & m, const std::vector<Key> & keys) {
    Value total = 0;
    std::map<Key, Value> seen;
    for (auto & i : c) {
        REQ(i.second != 0, "a zero count is stored for key " << i.first);
        REQ(seen.insert(std::make_pair(i.first, i.second)).second, "key " << i.first << " appears twice");
        total += i.second;
    }
    REQ(seen == m, "the counts differ from the model: " << seen.size() << " keys, expected " << m.size());
    REQ_EQ(c.get_total(), total, "total and sum of the counts");
    for (auto k : keys) { auto i = m.find(k); REQ_EQ(c.get_count(k), (i == m.end() ? 0 : i->second), "count of key " << k); }
}
template<class Key, class Value> static void counter(Src & src) {
    typedef SparseCounter<Key, Value> C;
    typedef std::map<Key, Value> M;
    std::vector<C> cs(1 + src.draw(2));
    std::vector<M> ms(cs.size());
    std::vector<Key> keys;
    int style = src.draw(5), ops = src.length(1, src.boolean(1, 40) ? 800 : 80);
    if (ops > 80) src.label("long history");
    const bool wide = sizeof(Value) > 4;
    auto amount = [](const M & m) { double t = 0; for (auto & x : m) t += std::abs(double(x.second)); return t; };
    auto bump = [](M & m, Key k, Value v) { if (v == 0) return; Value & x = m[k]; x += v; if (x == 0) m.erase(k); };
    int erased = 0, merged = 0;
    for (int n = 0; n < ops; ++n) {
        size_t i = src.index(cs.size()), j = src.index(cs.size());
        Key k = keys.size() && src.boolean(2, 3) ? src.pick(keys) : any_key<Key>(src, style);
        if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
        size_t before = ms[i].size();
        switch (src.weighted({4, 3, 3, 2, 2, 1, 1, 1})) {
            case 0: { Value r = cs[i].add(k); bump(ms[i], k, 1); REQ_EQ(r, (ms[i].count(k) ? ms[i][k] : 0), "result of add"); NOTE(src, "c" << i << ".add " << k << "; "); } break;
            case 1: { Value r = cs[i].remove(k); bump(ms[i], k, -1); REQ_EQ(r, (ms[i].count(k) ? ms[i][k] : 0), "result of remove"); NOTE(src, "c" << i << ".remove " << k << "; "); } break;
            case 2: { Value v = src.integer(-5, 1000); if (src.boolean(1, 3) && ms[i].count(k)) v = -ms[i][k];
                      else if (src.boolean(1, 8) && amount(ms[i]) < (wide ? 1e15 : 5e8)) { v = static_cast<Value>(wide ? 1000000007000000001ll / 4096 : 100000007) + v; src.label("large counts"); }
                      Value r = cs[i].add(k, v); bump(ms[i], k, v); REQ_EQ(r, (ms[i].count(k) ? ms[i][k] : 0), "result of add of " << v); NOTE(src, "c" << i << ".add " << k << " " << v << "; "); } break;
            case 3: if (!ms[i].count(k)) { Value v = src.integer(-2, 100); cs[i].init_count(k, v); bump(ms[i], k, v); NOTE(src, "c" << i << ".init_count " << k << " " << v << "; "); } break;
            case 4: if (i != j && amount(ms[i]) + amount(ms[j]) < (wide ? 1e16 : 1e9)) { cs[i].merge(cs[j]); for (auto & x : ms[j]) bump(ms[i], x.first, x.second); merged += ms[j].size() > 0; NOTE(src, "c" << i << ".merge c" << j << "; "); } break;
            case 5: { Key to = any_key<Key>(src, style);
                      if (!ms[i].count(to) || (to == k)) { cs[i].rename(k, to); if (ms[i].count(k)) { Value v = ms[i][k]; ms[i].erase(k); ms[i][to] = v; } keys.push_back(to); NOTE(src, "c" << i << ".rename " << k << " " << to << "; "); } } break;
            case 6: if (src.boolean(1, 3)) { cs[i].clear(); ms[i].clear(); NOTE(src, "c" << i << ".clear; "); } break;
            case 7: cs[i] = cs[j]; ms[i] = ms[j]; NOTE(src, "c" << i << " = c" << j << "; "); break;
        }
        erased += ms[i].size() < before;
        if (ops <= 80 || n % 16 == 0) check_counter(cs[i], ms[i], keys);
    }
    for (size_t i = 0; i < cs.size(); ++i) check_counter(cs[i], ms[i], keys);
    if (erased && (merged || cs.size() == 1)) src.nontrivial();
}
TARGET(C20_counter_u32, 2, "counts returned to zero and, with several counters, were merged") { counter<uint32_t, int>(src); }
TARGET(C20_counter_i32, 1, "counts returned to zero and, with several counters, were merged") { counter<int32_t, int64_t>(src); }
TARGET(C20_counter_u64, 1, "counts returned to zero and, with several counters, were merged") { counter<uint64_t, int>(src); }
TARGET(C20_counter_i16, 0.5, "counts returned to zero and, with several counters, were merged") { counter<int16_t, int>(src); }

template<class F> static bool throws(F f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
template<class Key> static void sparse(Src & src) {
    Sparse_<Key, std::string> s;
    std::map<Key, std::string> m;
    std::vector<Key> keys;
    int style = src.draw(5), ops = src.length(1, src.boolean(1, 40) ? 800 : 80), removed = 0;
    if (ops > 80) src.label("long history");
    for (int n = 0; n < ops; ++n) {
        Key k = keys.size() && src.boolean(2, 3) ? src.pick(keys) : any_key<Key>(src, style);
        if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
        std::string v = "v" + std::to_string(n);
        bool there = m.count(k);
        const auto & cs = s;
        switch (src.draw(8)) {
            case 0: NOTE(src, "add " << k << "; "); if (!there) { s.add(k, v); m[k] = v; }
                    else if (DIST_DEBUG_LEVEL >= 1) REQ(throws([&] { s.add(k, v); }), "adding a duplicate key was accepted"); break;
            case 1: NOTE(src, "add " << k << "; "); if (!there) { std::string & r = s.add(k); REQ(r.empty(), "fresh value"); r = v; m[k] = v; }
                    else if (DIST_DEBUG_LEVEL >= 1) REQ(throws([&] { s.add(k); }), "adding a duplicate key was accepted"); break;
            case 2: NOTE(src, "remove " << k << "; "); if (there) { s.remove(k); m.erase(k); ++removed; }
                    else if (DIST_DEBUG_LEVEL >= 1) REQ(throws([&] { s.remove(k); }), "removing a missing key was accepted"); break;
            case 3: NOTE(src, "pop " << k << "; "); if (there) { REQ_EQ(s.pop(k), m[k], "popped value"); m.erase(k); ++removed; }
                    else if (DIST_DEBUG_LEVEL >= 1) REQ(throws([&] { s.pop(k); }), "popping a missing key was accepted"); break;
            case 4: NOTE(src, "set " << k << "; "); if (there) { s.set(k, v); m[k] = v; }
                    else if (DIST_DEBUG_LEVEL >= 1) REQ(throws([&] { s.set(k, v); }), "setting a missing key was accepted"); break;
            case 5: NOTE(src, "get " << k << "; "); if (there) { REQ_EQ(s.get(k), m[k], "value"); REQ_EQ(cs.get(k), m[k], "value"); if (src.boolean()) { s.get(k) = v; m[k] = v; } }
                    else if (DIST_DEBUG_LEVEL >= 1) REQ(throws([&] { s.get(k); }) && throws([&] { cs.get(k); }), "getting a missing key was accepted"); break;
            case 6: NOTE(src, "get_or_add " << k << "; "); REQ_EQ(s.get_or_add(k), m[k], "value of get_or_add"); if (src.boolean()) { s.get_or_add(k) = v; m[k] = v; } break;
            case 7: for (auto i = s.begin(); i != s.end(); ++i) if (i->first == k) { s.unsafe_erase(i); m.erase(k); ++removed; break; } break;
            case 8: if (src.boolean(1, 8)) { s.clear(); m.clear(); } break;
        }
        REQ_EQ(s.size(), m.size(), "size");
        REQ_EQ(s.contains(k), (m.count(k) > 0), "contains " << k);
        if (ops > 80 && n % 16) continue;
        std::map<Key, std::string> seen;
        for (auto & i : cs) REQ(seen.insert(std::make_pair(i.first, i.second)).second, "key " << i.first << " twice");
        REQ(seen == m, "contents differ from the model");
    }
    if (removed) src.nontrivial();
}
TARGET(C20_sparse_u32, 1, "keys were removed") { sparse<uint32_t>(src); }
TARGET(C20_sparse_u64, 1, "keys were removed") { sparse<uint64_t>(src); }
TARGET(C20_sparse_i32, 0.5, "keys were removed") { sparse<int32_t>(src); }

struct Item {  // counts live objects and owns memory, so that wrong moves show
    std::vector<int> v;
    Item() {}
    explicit Item(int i) : v(3, i) {}
    bool operator==(const Item & o) const { return v == o.v; }
};
template<class V> static V item(int i);
template<> int item<int>(int i) { return i; }
template<> std::string item<std::string>(int i) { return "a string long enough to be on the heap " + std::to_string(i); }
template<> Item item<Item>(int i) { return Item(i); }
template<class V> static void packed(Src & src) {
    Packed_<V> p;
    std::vector<V> m;
    int ops = src.length(1, src.boolean(1, 40) ? 800 : 60), middle = 0;
    if (ops > 60) src.label("long history");
    if (src.boolean(1, 4)) { size_t n = src.draw(9); p = Packed_<V>(n, item<V>(-1)); m.assign(n, item<V>(-1)); }
    for (int n = 0; n < ops; ++n) {
        switch (src.weighted({ops > 60 ? 6 : 3, 1, 3, 1})) {
            case 0: p.packed_add(item<V>(n)); m.push_back(item<V>(n)); break;
            case 1: { V & r = p.packed_add(); REQ(r == V(), "a fresh element is not default constructed"); r = item<V>(n); m.push_back(item<V>(n)); } break;
            case 2: if (m.size()) { size_t k = src.index(m.size()); NOTE(src, "remove " << k << " of " << m.size() << "; "); p.packed_remove(k); middle += k + 1 < m.size(); m[k] = m.back(); if (true) m.pop_back(); } break;
            case 3: if (DIST_DEBUG_LEVEL >= 1) { size_t k = m.size() + src.draw(3); REQ(throws([&] { p.packed_remove(k); }), "packed_remove beyond the end was accepted"); } break;
        }
        REQ(p.size() == m.size(), "size " << p.size() << ", expected " << m.size());
        for (size_t i = 0; i < m.size(); ++i) REQ(p[i] == m[i], "element " << i << " of " << m.size());
    }
    if (middle) src.nontrivial();
}
TARGET(C20_packed_int, 1, "an element other than the last was removed") { packed<int>(src); }
TARGET(C20_packed_string, 1, "an element other than the last was removed") { packed<std::string>(src); }
TARGET(C20_packed_item, 1, "an element other than the last was removed") { packed<Item>(src); }
#endif
