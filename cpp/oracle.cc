#include "oracle.hpp"
#include "engine.hpp"
#include <cmath>
#include <algorithm>

namespace orc {

static const double PI = 3.14159265358979323846;

bool Sc::accepts(double x) const {
    if (eng::is_neg_inf(v) && eng::is_neg_inf(x)) return true;
    return eng::within(x, std::min(v, alt), std::max(v, alt), tol);
}
double Sc::width() const { return tol + std::fabs(v - alt); }

double lgam(double x) { int s; return lgamma_r(x, &s); }
double log_(double x) { return std::log(x); }
double exp_(double x) { return std::exp(x); }
double sqrt_(double x) { return std::sqrt(x); }
double pow_(double x, double y) { return std::pow(x, y); }
double log_sum_exp(const std::vector<double> & x) {
    if (x.empty()) return -INFINITY;
    double m = *std::max_element(x.begin(), x.end()), s = 0;
    if (std::isinf(m)) return m;
    for (double y : x) s += std::exp(y - m);
    return m + std::log(s);
}
double lmultigamma(int d, double a) {
    double r = 0.25 * d * (d - 1) * std::log(PI);
    for (int j = 1; j <= d; ++j) r += lgam(a + 0.5 * (1 - j));
    return r;
}
double log_beta(double a, double b) { return lgam(a) + lgam(b) - lgam(a + b); }

static double digamma(double x) {
    double r = 0;
    while (x < 6) { r -= 1 / x; x += 1; }
    double f = 1 / (x * x);
    return r + std::log(x) - 0.5 / x - f * (1. / 12 - f * (1. / 120 - f * (1. / 252 - f / 240)));
}

// fast_log truncates the mantissa to 14 bits: its error lies in [-6.2e-5, 1e-6*(1+|log|)]
double err_log(double x, double rel) { return 7.5e-5 + 2.5e-7 * std::fabs(std::log(x)) + rel; }
double err_lgamma(double x, double rel) {
    double l = std::fabs(lgam(x)), e;
    if (x < 2.4) e = 4e-7 * (1 + l);
    else if (x < 4) e = 1.2e-5 * (1 + l);
    else if (x < 8) e = 1.8e-5 * (1 + l);
    else if (x < 32) e = 9e-6 * (1 + l);
    else if (x < 256) e = 4e-6 * (1 + l);
    else e = 2.2e-6 * (1 + l);
    return e + rel * std::fabs(x * digamma(x));
}
double err_lgamma_nu(double nu) { return nu < 0.0625 ? 5e-6 : 2e-2; }
Sc alog(double x, double rel) { return Sc(std::log(x), err_log(x, rel)); }
Sc algamma(double x, double rel) { return Sc(lgam(x), err_lgamma(x, rel)); }
Sc scale(double c, const Sc & s) { return Sc(c * s.v, std::fabs(c) * s.tol, c * s.alt); }
Sc round_off(Sc s, double magnitude, int terms) { s.tol += 1.2e-7 * magnitude * terms + 1e-6; return s; }

Sc algamma_nu(double nu, double lib) {
    double exact = lgam(0.5 * nu + 0.5) - lgam(0.5 * nu);
    // the accuracy of the approximation itself is property C12; here both the exact value and the
    // library's value (if it is at all plausible) are accepted
    if (!eng::is_finite(lib) || std::fabs(lib - exact) > 0.03) lib = exact;
    return Sc(exact, 2e-6 + 1e-6 * std::fabs(exact), lib);
}

// ---------------------------------------------------------------- BB
Sc bb_value(const BB & m, double h, double t, bool v) {
    double a = m.alpha + h, b = m.beta + t;
    return alog((v ? a : b) / (a + b), 5e-7);
}
Sc bb_data(const BB & m, double h, double t) {
    double a = m.alpha + h, b = m.beta + t;
    Sc s = algamma(a) - algamma(m.alpha) + algamma(b) - algamma(m.beta) + algamma(m.alpha + m.beta) - algamma(a + b);
    if (h == 0 && t == 0) return Sc(0, 1e-4 * (1 + std::fabs(lgam(a + b)) * 1e-2));
    return round_off(s, std::fabs(lgam(a)) + std::fabs(lgam(b)) + std::fabs(lgam(a + b)) + std::fabs(lgam(m.alpha))
                     + std::fabs(lgam(m.beta)), 6);
}

// ---------------------------------------------------------------- BNB
static double aab(double a, double b, double c) { return std::fabs(lgam(a)) + std::fabs(lgam(b)) + std::fabs(lgam(c)); }
Sc bnb_value(const BNB & m, double n, double sum, double v) {
    double pa = m.alpha + m.r * n, pb = m.beta + sum, a = pa + m.r, b = pb + v;
    Sc s = algamma(pa + pb) - algamma(a + b) + algamma(a) - algamma(pa) + algamma(b) - algamma(pb);
    return round_off(s, aab(pa + pb, a + b, a) + aab(pa, b, pb), 6);
}
Sc bnb_data(const BNB & m, double n, double sum) {
    double pa = m.alpha + m.r * n, pb = m.beta + sum;
    Sc s = algamma(m.alpha + m.beta) - algamma(pa + pb) + algamma(pa) - algamma(m.alpha) + algamma(pb) - algamma(m.beta);
    return round_off(s, aab(m.alpha + m.beta, pa + pb, pa) + aab(m.alpha, pb, m.beta), 6);
}
double log_binom_coeff(double r, double x) { return lgam(x + r) - lgam(x + 1) - lgam(r); }

// ---------------------------------------------------------------- GP
Sc gp_value(const GP & m, double n, double sum, double v) {
    double a = m.alpha + sum, b = m.inv_beta + n;
    Sc s = algamma(a + v) - algamma(a) + scale(a, alog(b) - alog(1 + b)) - scale(v, alog(1 + b))
         - Sc(lgam(v + 1), err_lgamma(v + 1, 0) + 1e-6 * (1 + lgam(v + 1)));
    return round_off(s, aab(a + v, a, v + 1) + a * (std::fabs(std::log(b)) + std::log1p(b)) + v * std::log1p(b), 6);
}
Sc gp_data(const GP & m, double n, double sum, double log_prod, double lp_tol) {
    double a = m.alpha + sum, b = m.inv_beta + n;
    Sc s = algamma(a) - algamma(m.alpha) + scale(m.alpha, alog(m.inv_beta)) - scale(a, alog(b)) - Sc(log_prod, lp_tol);
    return round_off(s, aab(a, m.alpha, 1) + m.alpha * std::fabs(std::log(m.inv_beta)) + a * std::fabs(std::log(b))
                     + std::fabs(log_prod), 6);
}

// ---------------------------------------------------------------- categorical
Sc cat_value(double a_v, double a_sum, double c, double total) { return alog((a_v + c) / (a_sum + total), 2e-6); }
Sc cat_data(const std::vector<double> & a, double a_sum, const std::vector<double> & c) {
    Sc s;
    double total = 0, mag = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        if (c[i] == 0) continue;
        s = s + algamma(a[i] + c[i], 4e-7) - algamma(a[i], 4e-7);
        mag += std::fabs(lgam(a[i] + c[i])) + std::fabs(lgam(a[i]));
        total += c[i];
    }
    if (total != 0) {
        s = s + algamma(a_sum, 2e-6) - algamma(a_sum + total, 2e-6);
        mag += std::fabs(lgam(a_sum)) + std::fabs(lgam(a_sum + total));
    }
    return round_off(s, mag, 8);
}

// ---------------------------------------------------------------- NICH
NichStats nich_stats(const std::vector<double> & xs, double peak, double ops) {
    NichStats s;
    double n = xs.size(), mean = 0, ctv = 0;
    for (double x : xs) mean += x;
    if (n) mean /= n;
    for (double x : xs) ctv += (x - mean) * (x - mean);
    s.n = n; s.mean = mean; s.ctv = ctv;
    double eps = 6e-8;
    s.e_mean = 4 * eps * peak * (1 + ops);
    s.e_ctv = 8 * eps * peak * peak * (1 + ops) * (1 + std::min(n, ops));
    if (n == 0) s.e_mean = 0;
    if (n <= 1) s.e_ctv = 0;
    if (n == 1) s.e_ctv = 4 * eps * eps * peak * peak * (1 + ops) * (1 + ops);
    return s;
}
struct NichPost { double mu, kappa, nu, ns; };
static NichPost nich_post(const NICH & m, double n, double mean, double ctv) {
    NichPost p;
    p.kappa = m.kappa + n;
    p.mu = (m.kappa * m.mu + n * mean) / p.kappa;
    p.nu = m.nu + n;
    p.ns = m.nu * m.sigmasq + ctv + n * m.kappa * (m.mu - mean) * (m.mu - mean) / p.kappa;
    return p;
}
static double nich_pred(const NichPost & p, double v) {
    // student t with nu degrees of freedom, location mu, scale^2 = ns/nu (kappa+1)/kappa
    double s2 = p.ns / p.nu * (p.kappa + 1) / p.kappa;
    double z = (v - p.mu) * (v - p.mu) / (p.nu * s2);
    return -0.5 * std::log(p.nu * PI * s2) - 0.5 * (p.nu + 1) * std::log1p(z);
}
Sc nich_value(const NICH & m, const NichStats & s, double v, double lib_nu) {
    NichPost p = nich_post(m, s.n, s.mean, s.ctv);
    double base = nich_pred(p, v), dev = 0;
    for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) {
        double ctv = std::max(0.0, s.ctv + j * s.e_ctv);
        dev = std::max(dev, std::fabs(nich_pred(nich_post(m, s.n, s.mean + i * s.e_mean, ctv), v) - base));
    }
    // float rounding of the posterior location and of value - mean
    NichPost q = p;
    q.mu += 4e-7 * (std::fabs(m.mu) + std::fabs(s.mean));
    dev += std::fabs(nich_pred(q, v) - base);
    q = p; q.ns *= 1 + 2e-6;
    double mu1 = std::fabs(m.mu) + std::fabs(s.mean);
    q.ns += 4e-7 * s.n * m.kappa * mu1 * std::fabs(m.mu - s.mean) / p.kappa;
    dev += std::fabs(nich_pred(q, v) - base);
    double s2 = p.ns / p.nu * (p.kappa + 1) / p.kappa;
    double z = 1 + (v - p.mu) * (v - p.mu) / (p.nu * s2);
    double tol = 1.5 * dev + 0.5 * err_log(1 / (p.nu * PI * s2)) + 0.5 * (p.nu + 1) * err_log(z, 1e-6);
    Sc g = algamma_nu(p.nu, lib_nu);
    return round_off(Sc(base + g.v, tol + g.tol, base + g.alt), 1 + std::fabs(base) + (p.nu + 1) * std::log(z), 4);
}
static double nich_marg(const NICH & m, double n, double mean, double ctv) {
    NichPost p = nich_post(m, n, mean, ctv);
    return lgam(0.5 * p.nu) - lgam(0.5 * m.nu) + 0.5 * std::log(m.kappa / p.kappa)
        + 0.5 * m.nu * std::log(m.nu * m.sigmasq) - 0.5 * p.nu * std::log(p.ns) - 0.5 * n * std::log(PI);
}
Sc nich_data(const NICH & m, const NichStats & s) {
    NichPost p = nich_post(m, s.n, s.mean, s.ctv);
    double base = nich_marg(m, s.n, s.mean, s.ctv), dev = 0;
    for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j)
        dev = std::max(dev, std::fabs(nich_marg(m, s.n, s.mean + i * s.e_mean, std::max(0.0, s.ctv + j * s.e_ctv)) - base));
    double mu1 = std::fabs(m.mu) + std::fabs(s.mean);
    double rel = 3e-6 + 4e-7 * s.n * m.kappa * mu1 * std::fabs(m.mu - s.mean) / p.kappa / p.ns;
    double tol = 1.5 * dev + err_lgamma(0.5 * p.nu) + err_lgamma(0.5 * m.nu) + 0.5 * err_log(m.kappa / p.kappa)
        + 0.5 * m.nu * err_log(m.nu * m.sigmasq) + 0.5 * p.nu * err_log(p.ns, rel);
    double mag = std::fabs(lgam(0.5 * p.nu)) + std::fabs(lgam(0.5 * m.nu)) + m.nu * std::fabs(std::log(m.nu * m.sigmasq))
        + p.nu * std::fabs(std::log(p.ns)) + s.n;
    return round_off(Sc(base, tol), mag, 4);
}

// ---------------------------------------------------------------- NIW
bool spd(int d, const std::vector<double> & m, std::vector<double> * inv, double * logdet) {
    std::vector<double> L(d * d, 0);
    double ld = 0;
    for (int i = 0; i < d; ++i) for (int j = 0; j <= i; ++j) {
        double s = m[i * d + j];
        for (int k = 0; k < j; ++k) s -= L[i * d + k] * L[j * d + k];
        if (i == j) {
            if (!(s > 0)) return false;
            L[i * d + i] = std::sqrt(s);
            ld += std::log(s);
        } else L[i * d + j] = s / L[j * d + j];
    }
    if (logdet) *logdet = ld;
    if (inv) {
        inv->assign(d * d, 0);
        for (int c = 0; c < d; ++c) {
            std::vector<double> y(d);
            for (int i = 0; i < d; ++i) {
                double s = i == c;
                for (int k = 0; k < i; ++k) s -= L[i * d + k] * y[k];
                y[i] = s / L[i * d + i];
            }
            for (int i = d - 1; i >= 0; --i) {
                double s = y[i];
                for (int k = i + 1; k < d; ++k) s -= L[k * d + i] * (*inv)[k * d + c];
                (*inv)[i * d + c] = s / L[i * d + i];
            }
        }
    }
    return true;
}
NiwStats niw_stats(int d, const std::vector<std::vector<double>> & xs, double peak, double ops) {
    NiwStats s;
    s.n = xs.size();
    s.sx.assign(d, 0); s.sxx.assign(d * d, 0);
    for (auto & x : xs) for (int i = 0; i < d; ++i) {
        s.sx[i] += x[i];
        for (int j = 0; j < d; ++j) s.sxx[i * d + j] += x[i] * x[j];
    }
    double eps = 6e-8, live = std::max<double>(1, ops);
    s.e_x = 2 * eps * peak * live * live;     // each of `ops` updates rounds a sum of at most `ops` peaks
    s.e_xx = 2 * eps * peak * peak * live * live;
    return s;
}
NiwPost niw_post(const NIW & m, const NiwStats & s) {
    NiwPost p;
    int d = m.d;
    double n = s.n;
    p.kappa = m.kappa + n;
    p.nu = m.nu + n;
    p.mu.resize(d); p.psi.resize(d * d);
    std::vector<double> xbar(d, 0), diff(d);
    double mx = 0, mmu = 0;
    for (int i = 0; i < d; ++i) {
        if (n) xbar[i] = s.sx[i] / n;
        diff[i] = xbar[i] - m.mu[i];
        p.mu[i] = (m.kappa * m.mu[i] + n * xbar[i]) / p.kappa;
        mx = std::max(mx, std::fabs(xbar[i]));
        mmu = std::max(mmu, std::fabs(m.mu[i]));
    }
    double mpsi = 0, msxx = 0;
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) {
        p.psi[i * d + j] = m.psi[i * d + j] + s.sxx[i * d + j] - n * xbar[i] * xbar[j] + m.kappa * n / p.kappa * diff[i] * diff[j];
        mpsi = std::max(mpsi, std::fabs(m.psi[i * d + j]));
        msxx = std::max(msxx, std::fabs(s.sxx[i * d + j]));
    }
    double eps = 6e-8;
    p.e_mu = 8 * eps * (mx + mmu) + (n ? s.e_x / n : s.e_x);
    p.e_psi = 8 * eps * (mpsi + 4 * msxx + 4 * n * mx * mx + m.kappa * (mx + mmu) * (mx + mmu)) + s.e_xx + 4 * mx * s.e_x
            + 4 * m.kappa * (mx + mmu) * (n ? s.e_x / n : 0);
    p.ok = spd(d, p.psi, &p.psi_inv, &p.logdet);
    if (p.ok) {
        double norm = 0;
        for (double x : p.psi_inv) norm += std::fabs(x);
        p.e_logdet = norm * p.e_psi + 16 * eps * d * (1 + std::fabs(p.logdet));
        // determinant cancellation: condition number times eps
        double mp = 0;
        for (double x : p.psi) mp = std::max(mp, std::fabs(x));
        p.e_logdet += 8 * eps * norm * mp;
        if (norm * p.e_psi > 0.05) p.ok = false;
    }
    return p;
}
Sc niw_value(const NIW & m, const NiwStats & s, const std::vector<double> & v) {
    NiwPost p = niw_post(m, s);
    if (!p.ok) return Sc(0, 1e300);
    int d = m.d;
    double dof = p.nu - d + 1, c = (p.kappa + 1) / (p.kappa * dof);  // sigma = psi * c
    double q = 0, dq = 0, norm = 0, dn = 0;
    std::vector<double> diff(d);
    for (int i = 0; i < d; ++i) { diff[i] = v[i] - p.mu[i]; dn += std::fabs(diff[i]); }
    for (double x : p.psi_inv) norm += std::fabs(x);
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q += diff[i] * p.psi_inv[i * d + j] * diff[j];
    q /= c;
    double vmax = 0;
    for (double x : v) vmax = std::max(vmax, std::fabs(x));
    double emu = p.e_mu + 2e-7 * vmax;
    double mp = 0;
    for (double x : p.psi) mp = std::max(mp, std::fabs(x));
    // error of the quadratic form: inverse perturbation and difference perturbation
    dq = (2 * norm * dn * emu + dn * dn * norm * norm * (p.e_psi + 4e-7 * mp)) / c + 1e-6 * q;
    double z = 1 + q / dof;
    double r = lgam(0.5 * (dof + d)) - lgam(0.5 * dof) - 0.5 * d * std::log(dof * PI) - 0.5 * (p.logdet + d * std::log(c))
             - 0.5 * (dof + d) * std::log(z);
    double tol = err_lgamma(0.5 * (dof + d)) + err_lgamma(0.5 * dof) + 0.5 * d * err_log(dof * PI)
        + 0.5 * (err_log(1, 0) + p.e_logdet + d * 1e-6 + 2.5e-7 * std::fabs(p.logdet + d * std::log(c)))
        + 0.5 * (dof + d) * (err_log(z, 1e-6) + dq / dof / z);
    return round_off(Sc(r, tol), std::fabs(lgam(0.5 * dof)) + std::fabs(lgam(0.5 * (dof + d))) + std::fabs(r) + d * std::fabs(std::log(dof)), 4);
}
Sc niw_data(const NIW & m, const NiwStats & s) {
    NiwPost p = niw_post(m, s);
    int d = m.d;
    double ld0;
    std::vector<double> inv0;
    if (!p.ok || !spd(d, m.psi, &inv0, &ld0)) return Sc(0, 1e300);
    double norm0 = 0, mp0 = 0;
    for (double x : inv0) norm0 += std::fabs(x);
    for (double x : m.psi) mp0 = std::max(mp0, std::fabs(x));
    double e0 = 1e-6 * (1 + norm0 * mp0);
    double r = lmultigamma(d, 0.5 * p.nu) - lmultigamma(d, 0.5 * m.nu) + 0.5 * m.nu * ld0 - 0.5 * p.nu * p.logdet
             - 0.5 * s.n * d * std::log(PI) + 0.5 * d * std::log(m.kappa / p.kappa);
    double tol = 0, mag = std::fabs(r) + std::fabs(0.5 * m.nu * ld0) + std::fabs(0.5 * p.nu * p.logdet) + s.n * d;
    for (int j = 1; j <= d; ++j) {
        double a = 0.5 * p.nu + 0.5 * (1 - j), b = 0.5 * m.nu + 0.5 * (1 - j);
        tol += err_lgamma(a) + err_lgamma(b, 4e-7 * (1 + m.nu / std::max(1e-3, b)));
        mag += std::fabs(lgam(a)) + std::fabs(lgam(b));
    }
    tol += 0.5 * m.nu * (err_log(std::exp(std::min(80.0, std::max(-80.0, ld0)))) + e0) + 0.5 * p.nu * (err_log(1) + 2.5e-7 * std::fabs(p.logdet) + p.e_logdet)
        + 0.5 * d * err_log(m.kappa / p.kappa);
    return round_off(Sc(r, tol), mag, 6);
}

// ---------------------------------------------------------------- goodness of fit
static double gser(double a, double x) {
    double sum = 1 / a, del = sum, ap = a;
    for (int n = 0; n < 10000; ++n) { ap += 1; del *= x / ap; sum += del; if (std::fabs(del) < std::fabs(sum) * 1e-15) break; }
    return sum * std::exp(-x + a * std::log(x) - lgam(a));
}
static double gcf(double a, double x) {
    double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
    for (int i = 1; i < 10000; ++i) {
        double an = -i * (i - a);
        b += 2;
        d = an * d + b; if (std::fabs(d) < 1e-300) d = 1e-300;
        c = b + an / c; if (std::fabs(c) < 1e-300) c = 1e-300;
        d = 1 / d;
        double del = d * c;
        h *= del;
        if (std::fabs(del - 1) < 1e-15) break;
    }
    return std::exp(-x + a * std::log(x) - lgam(a)) * h;
}
double gamma_q(double a, double x) {
    if (x <= 0) return 1;
    return x < a + 1 ? 1 - gser(a, x) : gcf(a, x);
}
double gamma_cdf(double x, double shape) { return x <= 0 ? 0 : x < shape + 1 ? gser(shape, x) : 1 - gcf(shape, x); }
double chi2_sf(double x, double dof) { return gamma_q(0.5 * dof, 0.5 * x); }
static double betacf(double a, double b, double x) {
    double qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
    if (std::fabs(d) < 1e-300) d = 1e-300;
    d = 1 / d;
    double h = d;
    for (int m = 1; m < 10000; ++m) {
        int m2 = 2 * m;
        double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
        d = 1 + aa * d; if (std::fabs(d) < 1e-300) d = 1e-300;
        c = 1 + aa / c; if (std::fabs(c) < 1e-300) c = 1e-300;
        d = 1 / d; h *= d * c;
        aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
        d = 1 + aa * d; if (std::fabs(d) < 1e-300) d = 1e-300;
        c = 1 + aa / c; if (std::fabs(c) < 1e-300) c = 1e-300;
        d = 1 / d;
        double del = d * c;
        h *= del;
        if (std::fabs(del - 1) < 1e-15) break;
    }
    return h;
}
double beta_cdf(double x, double a, double b) {
    if (x <= 0) return 0;
    if (x >= 1) return 1;
    double bt = std::exp(-log_beta(a, b) + a * std::log(x) + b * std::log1p(-x));
    return x < (a + 1) / (a + b + 2) ? bt * betacf(a, b, x) / a : 1 - bt * betacf(b, a, 1 - x) / b;
}
double norm_cdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
double student_cdf(double x, double nu) {
    double p = 0.5 * beta_cdf(nu / (nu + x * x), 0.5 * nu, 0.5);
    return x > 0 ? 1 - p : p;
}
double chi2_test(const std::vector<double> & o, const std::vector<double> & e) {
    // pool cells with small expectation, in order
    double stat = 0, po = 0, pe = 0;
    int cells = 0;
    double so = 0, se = 0;
    for (size_t i = 0; i < o.size(); ++i) {
        so += o[i]; se += e[i];
        if (e[i] < 10) { po += o[i]; pe += e[i]; continue; }
        stat += (o[i] - e[i]) * (o[i] - e[i]) / e[i];
        ++cells;
    }
    if (pe >= 5) { stat += (po - pe) * (po - pe) / pe; ++cells; }
    else if (pe < 1e-9 && po > 0) return 0;
    else if (pe > 0) {  // one-sided Poisson tail for the small pooled cell, only when grossly too many
        if (po > pe + 60) return 0;
    }
    (void)so; (void)se;
    if (cells < 2) return 1;
    return chi2_sf(stat, cells - 1);
}
double ks_test(std::vector<double> u) {
    std::sort(u.begin(), u.end());
    double n = u.size(), D = 0;
    for (size_t i = 0; i < u.size(); ++i) {
        if (!(u[i] >= -1e-6 && u[i] <= 1 + 1e-6)) return 0;
        D = std::max(D, std::max((i + 1) / n - u[i], u[i] - i / n));
    }
    double t = (std::sqrt(n) + 0.12 + 0.11 / std::sqrt(n)) * D, p = 0;
    if (t < 0.3) return 1;
    for (int k = 1; k < 101; ++k) p += 2 * ((k & 1) ? 1 : -1) * std::exp(-2.0 * k * k * t * t);
    return std::min(1.0, std::max(0.0, p));
}
double ks_interval(const std::vector<double> & lo_, const std::vector<double> & hi_) {
    std::vector<double> lo(lo_), hi(hi_);
    std::sort(lo.begin(), lo.end());
    std::sort(hi.begin(), hi.end());
    double n = lo.size(), D = 0;
    for (size_t i = 0; i < lo.size(); ++i) {
        if (!(lo[i] >= -1e-6 && hi[i] <= 1 + 1e-6)) return 0;
        D = std::max(D, std::max((i + 1) / n - hi[i], lo[i] - i / n));
    }
    double t = (std::sqrt(n) + 0.12 + 0.11 / std::sqrt(n)) * D, p = 0;
    if (t < 0.3) return 1;
    for (int k = 1; k < 101; ++k) p += 2 * ((k & 1) ? 1 : -1) * std::exp(-2.0 * k * k * t * t);
    return std::min(1.0, std::max(0.0, p));
}
double log1p_(double x) { return std::log1p(x); }
double expm1_(double x) { return std::expm1(x); }
double poisson_pmf(double k, double mean) { return mean == 0 ? (k == 0) : std::exp(k * std::log(mean) - mean - lgam(k + 1)); }
double negbin_pmf(double k, double p, double r) { return p >= 1 ? (k == 0) : std::exp(lgam(k + r) - lgam(k + 1) - lgam(r) + r * std::log(p) + k * std::log1p(-p)); }

}  // namespace orc
