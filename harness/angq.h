// Independent angular machinery: spherical harmonics from their recurrences and
// integrals over the sphere by Gauss-Legendre quadrature.
#pragma once
#include "twoe.h"
#include <Eigen/Cholesky>
#include <complex>
#include <map>
#include <array>
namespace A {
static std::vector<double> ax, aw; // rule for cos(theta)
static void init(int n) { gauss(n); ax = gx; aw = gw; }
// normalised Theta_lm(x) with the Condon-Shortley phase: Y_lm = Theta_lm(cos th) e^{im phi}
static double theta(int l, int m, double x) {
  if (std::abs(m) > l || l < 0) return 0;
  if (m < 0) return (m % 2 ? -1 : 1) * theta(l, -m, x);
  long double s = sqrtl(std::max(0.0L, (1 - (long double)x) * (1 + (long double)x))), p = sqrtl(1 / (4 * M_PIl));
  for (int k = 1; k <= m; k++) p *= -s * sqrtl((2 * k + 1) / (2.0L * k));
  if (l == m) return (double)p;
  long double q = x * sqrtl(2 * m + 3.0L) * p;
  for (int k = m + 2; k <= l; k++) {
    long double a = sqrtl((4.0L * k * k - 1) / ((long double)k * k - m * m)), b = sqrtl(((k - 1.0L) * (k - 1) - m * m) / (4.0L * (k - 1) * (k - 1) - 1));
    long double r = a * (x * q - b * p); p = q; q = r;
  }
  return (double)q;
}
// d Theta_lm / d theta
static double dtheta(int l, int m, double x) {
  auto c = [](int a, int b) { return std::sqrt((double)a * b); };
  return 0.5 * (c(l - m, l + m + 1) * theta(l, m + 1, x) - c(l + m, l - m + 1) * theta(l, m - 1, x));
}
static std::complex<double> Y(int l, int m, double x, double phi) { return theta(l, m, x) * std::polar(1.0, m * phi); }
// int Y_a* f(cos theta) Y_b over the sphere
static double cpl(int la, int ma, const std::function<double(double)> &f, int lb, int mb) {
  if (ma != mb) return 0;
  double s = 0;
  for (size_t q = 0; q < ax.size(); q++) s += aw[q] * f(ax[q]) * theta(la, ma, ax[q]) * theta(lb, mb, ax[q]);
  return 2 * M_PI * s;
}
// int Y_a* Y_LM Y_b
static double G(int la, int ma, int L, int M, int lb, int mb) {
  if (ma != M + mb || std::abs(ma) > la || std::abs(M) > L || std::abs(mb) > lb) return 0;
  static std::map<std::array<int, 6>, double> memo;
  std::array<int, 6> k{la, ma, L, M, lb, mb};
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  double s = 0;
  for (size_t q = 0; q < ax.size(); q++) s += aw[q] * theta(la, ma, ax[q]) * theta(L, M, ax[q]) * theta(lb, mb, ax[q]);
  return memo[k] = 2 * M_PI * s;
}
} // namespace A

typedef std::vector<int> VI;
typedef std::function<double(double)> F1;
static Eigen::VectorXi ev(const VI &v) { Eigen::VectorXi r(v.size()); for (size_t i = 0; i < v.size(); i++) r(i) = v[i]; return r; }
static std::string vis(const VI &v) { std::string s; for (int i : v) s += H::str("%d,", i); return s; }
static const double PI = M_PI;

// ---------------------------------------------------------------- radial oracle
struct Rad { // functions of one radial basis and their own quadrature
  std::shared_ptr<FE> fe;
  std::vector<double> b;
  size_t n() const { return fe->get_nbf(); }
  size_t el(double r) const { size_t e = 0; while (e + 1 < fe->get_nelem() && r > fe->element_end(e)) e++; return e; }
  // all functions (d-th derivative) at r, in element e
  Eigen::VectorXd at(double r, int d, size_t e) const {
    double lo = fe->element_begin(e), hi = fe->element_end(e);
    Vec<double> x(1); x(0) = std::min(1.0, std::max(-1.0, (r - (lo + hi) / 2) / ((hi - lo) / 2)));
    M v = fe->eval_dnf(x, d, e);
    size_t f, l; fe->get_idx(e, f, l);
    Eigen::VectorXd o = Eigen::VectorXd::Zero(n());
    for (size_t k = f; k <= l; k++) o(k) = v(0, k - f);
    return o;
  }
  M integral(F1 w, int da, int db, std::vector<double> brk = {}) const {
    M S = M::Zero(n(), n());
    std::vector<double> p(b); for (double x : brk) if (x > b.front() && x < b.back()) p.push_back(x);
    std::sort(p.begin(), p.end());
    for (size_t i = 0; i + 1 < p.size(); i++) {
      double m = (p[i] + p[i + 1]) / 2, h = (p[i + 1] - p[i]) / 2; size_t e = el(m);
      if (h <= 0) continue;
      for (size_t q = 0; q < gx.size(); q++) { double r = m + h * gx[q]; S += (h * gw[q] * w(r)) * at(r, da, e) * at(r, db, e).transpose(); }
    }
    return S;
  }
};
