// Independent double-precision reference for the conjugate models and the
// accuracy model of the library's single-precision approximations.
// Written from the textbook formulas, not from the code under test.
// oracle.cc is never compiled with -ffast-math.
#pragma once
#include <vector>
#include <cstdint>
#include <cstddef>

namespace orc {

struct Sc {            // a reference score with the error the code under test may make
    double v, tol;
    double alt;        // optional second reference (see nich); the accepted set is the hull of {v, alt} +- tol
    Sc(double v_ = 0, double tol_ = 0) : v(v_), tol(tol_), alt(v_) {}
    Sc(double v_, double tol_, double alt_) : v(v_), tol(tol_), alt(alt_) {}
    Sc operator+(const Sc & o) const { return Sc(v + o.v, tol + o.tol, alt + o.alt); }
    Sc operator-(const Sc & o) const { return Sc(v - o.v, tol + o.tol, alt - o.alt); }
    bool accepts(double x) const;
    double width() const;
};

double lgam(double x);
double log_(double x);
double exp_(double x);
double sqrt_(double x);
double pow_(double x, double y);
double log_sum_exp(const std::vector<double> & x);
double lmultigamma(int d, double a);
double log_beta(double a, double b);

// error bounds of the approximations, for an argument with relative error rel
double err_log(double x, double rel = 2e-7);
double err_lgamma(double x, double rel = 2e-7);
double err_lgamma_nu(double x);
Sc alog(double x, double rel = 2e-7);      // log as the library approximates it
Sc algamma(double x, double rel = 2e-7);
Sc scale(double c, const Sc & s);
Sc round_off(Sc s, double magnitude, int terms);  // float accumulation

// library approximation of lgamma(nu/2+1/2)-lgamma(nu/2): exact value and the library's own value as hull
Sc algamma_nu(double nu, double library_value);

// --- beta bernoulli
struct BB { double alpha, beta; };
Sc bb_value(const BB &, double heads, double tails, bool v);
Sc bb_data(const BB &, double heads, double tails);

// --- beta negative binomial (unnormalised: without the binomial coefficient)
struct BNB { double alpha, beta, r; };
Sc bnb_value(const BNB &, double count, double sum, double v);
Sc bnb_data(const BNB &, double count, double sum);
double log_binom_coeff(double r, double x);  // log C(x+r-1, x)

// --- gamma poisson
struct GP { double alpha, inv_beta; };
Sc gp_value(const GP &, double count, double sum, double v);
Sc gp_data(const GP &, double count, double sum, double log_prod, double log_prod_tol);

// --- dirichlet discrete / realized DPD: base weight a_i per category
Sc cat_value(double a_v, double a_sum, double count_v, double total);
Sc cat_data(const std::vector<double> & a, double a_sum, const std::vector<double> & counts);

// --- normal inverse chi squared
struct NICH { double mu, kappa, sigmasq, nu; };
struct NichStats { double n, mean, ctv; double e_mean, e_ctv; };
NichStats nich_stats(const std::vector<double> & xs, double peak_abs, double ops);
Sc nich_value(const NICH &, const NichStats &, double v, double library_lgamma_nu);
Sc nich_data(const NICH &, const NichStats &);

// --- normal inverse wishart, dim d, row-major
struct NIW { int d; std::vector<double> mu, psi; double kappa, nu; };
struct NiwStats { double n; std::vector<double> sx, sxx; double e_x, e_xx; };
NiwStats niw_stats(int d, const std::vector<std::vector<double>> & xs, double peak_abs, double ops);
struct NiwPost { double kappa, nu; std::vector<double> mu, psi; double e_mu, e_psi, logdet, e_logdet; bool ok;
                 std::vector<double> psi_inv; };
NiwPost niw_post(const NIW &, const NiwStats &);
Sc niw_value(const NIW &, const NiwStats &, const std::vector<double> & v);
Sc niw_data(const NIW &, const NiwStats &);
bool spd(int d, const std::vector<double> & m, std::vector<double> * inv, double * logdet);

// goodness of fit helpers
double chi2_sf(double x, double dof);                 // upper tail probability
double gamma_q(double a, double x);                   // regularised upper incomplete gamma
double gamma_cdf(double x, double shape);
double beta_cdf(double x, double a, double b);
double norm_cdf(double x);
double student_cdf(double x, double nu);
double chi2_test(const std::vector<double> & observed, const std::vector<double> & expected);  // p value, pools small cells
double ks_test(std::vector<double> u);                // p value of uniformity of u in [0, 1]
// the same for values known only up to rounding: u_i lies in [lo_i, hi_i]
double ks_interval(const std::vector<double> & lo, const std::vector<double> & hi);
double log1p_(double x);
double expm1_(double x);
double poisson_pmf(double k, double mean);
double negbin_pmf(double k, double p, double r);

}  // namespace orc
