// Independent quadrature of one- and two-electron radial integrals, shared by the harnesses.
#pragma once
#include "h.h"
#include <CoulombExchangeFE.h>
#include <FiniteElementBasis.h>
#include <NAORadialBasis.h>
#include <PolynomialBasis.h>
#include <RadialBasis.h>
#include "erfc_expn.h"
#include "lobatto.h"
#include "quadrature.h"
#include "utils.h"
using namespace helfem;
using namespace helfem::polynomial_basis;
namespace B = helfem::atomic::basis;
typedef B::FEMRadialBasisT<double> RB;
typedef FiniteElementBasisT<double> FE;
typedef Mat<double> M;
typedef std::function<double(double, double)> Ker; // (smaller, larger)

static std::vector<double> gx, gw;
static void gauss(int n) {
  gx.resize(n); gw.resize(n);
  for (int i = 0; i < n; i++) {
    long double x = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), dp = 1;
    for (int it = 0; it < 100; it++) {
      long double p0 = 1, p1 = x;
      for (int k = 2; k <= n; k++) { long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
      dp = n * (x * p1 - p0) / (x * x - 1);
      long double d = p1 / dp; x -= d;
      if (fabsl(d) < 1e-19L) break;
    }
    gx[i] = (double)x; gw[i] = (double)(2 / ((1 - x * x) * dp * dp));
  }
}
static double il(int L, double x) {
  long double t = 1, s = 0;
  for (int k = 1; k <= L; k++) t *= (long double)x / (2 * k + 1);
  for (int k = 0; k < 300; k++) { s += t; t *= (long double)x * x / 2 / ((k + 1) * (2 * L + 2 * k + 3.0L)); }
  return (double)s;
}
static double kl(int L, double x) {
  long double a = expl(-x) / x, b = a * (1 + 1.0L / x);
  if (!L) return (double)a;
  for (int l = 1; l < L; l++) { long double c = a + (2 * l + 1) * b / x; a = b; b = c; }
  return (double)b;
}

struct Case { int id, nn; std::vector<double> b; std::shared_ptr<FE> fe; std::shared_ptr<RB> rb; };
static const int IDS[] = {3, 4, 5, 8, 9};
static Case make(int maxel) {
  Case c;
  c.id = IDS[H::ri(0, 4)];
  c.nn = H::ri(c.id == 3 ? 4 : c.id == 4 ? 3 : 2, c.id == 3 || c.id == 4 ? 5 : c.id == 5 ? 3 : 2);
  int ne = H::ri(1, maxel);
  double x = 0;
  c.b.push_back(0);
  for (int i = 0; i < ne; i++) { x += H::rr(0.3, 2.0); c.b.push_back(x); }
  Vec<double> bv(c.b.size());
  std::string m;
  for (size_t i = 0; i < c.b.size(); i++) { bv(i) = c.b[i]; m += H::str(" %.17g", c.b[i]); }
  bool fr = H::rb();
  int nq = H::ri(8, 30);
  std::shared_ptr<const PolynomialBasisT<double>> poly(get_basis_T<double>(c.id, c.nn));
  c.fe.reset(new FE(poly, bv, true, false, fr, false));
  c.rb.reset(new RB(*c.fe, nq));
  H::kase("family=%d nodes=%d nquad=%d zeroright=%d mesh=[%s ]", c.id, c.nn, nq, fr, m.c_str());
  return c;
}
static void cmp(const M &a, const M &b, double tol, const char *clause, const std::string &extra = "", double scale = 0) {
  if (!H::ok(a.rows() == b.rows() && a.cols() == b.cols(), "result has the stated size", std::string(clause) + " " + extra + H::str(" got %ldx%ld expected %ldx%ld", (long)a.rows(), (long)a.cols(), (long)b.rows(), (long)b.cols()))) return;
  if (scale == 0) scale = b.size() ? b.cwiseAbs().maxCoeff() : 1;
  double worst = -1; Eigen::Index wi = 0, wj = 0;
  for (Eigen::Index i = 0; i < a.rows(); i++) for (Eigen::Index j = 0; j < a.cols(); j++) {
    double d = std::fabs(a(i, j) - b(i, j));
    if (!(d <= worst)) { worst = d; wi = i; wj = j; if (d != d) { i = a.rows(); break; } }
  }
  H::ok(worst <= tol * std::max(scale, 1e-300), clause, extra + H::str(" entry (%ld,%ld) got %.17g expected %.17g", (long)wi, (long)wj, a.size() ? a(wi, wj) : 0, b.size() ? b(wi, wj) : 0));
}

// values of the functions of element e at radii r
static M bf(const FE &fe, size_t e, const std::vector<double> &r) {
  double a = fe.element_begin(e), b = fe.element_end(e);
  Vec<double> x(r.size());
  for (size_t q = 0; q < r.size(); q++) x(q) = std::min(1.0, std::max(-1.0, (r[q] - (a + b) / 2) / ((b - a) / 2)));
  return fe.eval_dnf(x, 0, e);
}
static void rule(double a, double b, std::vector<double> &r, std::vector<double> &w) {
  r.clear(); w.clear();
  for (size_t q = 0; q < gx.size(); q++) { r.push_back((a + b) / 2 + (b - a) / 2 * gx[q]); w.push_back((b - a) / 2 * gw[q]); }
}
static M pairs(const M &f) {
  Eigen::Index n = f.cols();
  M p(f.rows(), n * n);
  for (Eigen::Index i = 0; i < n; i++) for (Eigen::Index j = 0; j < n; j++) p.col(j * n + i) = f.col(i).cwiseProduct(f.col(j));
  return p;
}
// G(ik, jl) = int_e int_f B_i B_k(r) g(r<,r>) B_j B_l(r')
static M pairints(const FE &fe, size_t e, size_t f, const Ker &g) {
  std::vector<double> r, w, s, v;
  double a = fe.element_begin(f), b = fe.element_end(f);
  rule(fe.element_begin(e), fe.element_end(e), r, w);
  M Pe = pairs(bf(fe, e, r));
  M U;
  for (size_t q = 0; q < r.size(); q++) {
    Vec<double> u;
    if (e != f) {
      rule(a, b, s, v);
      for (size_t t = 0; t < s.size(); t++) v[t] *= g(std::min(r[q], s[t]), std::max(r[q], s[t]));
      u = pairs(bf(fe, f, s)).transpose() * Eigen::Map<Vec<double>>(v.data(), v.size());
    } else {
      rule(a, r[q], s, v);
      for (size_t t = 0; t < s.size(); t++) v[t] *= g(s[t], r[q]);
      u = pairs(bf(fe, f, s)).transpose() * Eigen::Map<Vec<double>>(v.data(), v.size());
    }
    if (!q) U.resize(r.size(), u.size());
    U.row(q) = u.transpose();
  }
  M A = Pe.transpose() * Eigen::Map<Vec<double>>(w.data(), w.size()).asDiagonal() * U;
  if (e == f) A += M(A.transpose()); // the half r' > r follows by exchanging the electrons
  return A;
}
struct Two { std::vector<std::vector<M>> G; };
static Two ints(const FE &fe, const Ker &g) {
  Two t; size_t n = fe.get_nelem();
  t.G.resize(n, std::vector<M>(n));
  for (size_t e = 0; e < n; e++) for (size_t f = 0; f < n; f++) t.G[e][f] = pairints(fe, e, f, g);
  return t;
}
static void jk(const FE &fe, const Two &t, const M &P, M &J, M &Kx) {
  size_t N = fe.get_nbf(), ne = fe.get_nelem();
  J = M::Zero(N, N); Kx = M::Zero(N, N);
  for (size_t e = 0; e < ne; e++) for (size_t f = 0; f < ne; f++) {
    size_t fe1, le, ff, lf; fe.get_idx(e, fe1, le); fe.get_idx(f, ff, lf);
    size_t n = le - fe1 + 1, m = lf - ff + 1;
    for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) for (size_t j = 0; j < m; j++) for (size_t l = 0; l < m; l++) {
      double x = t.G[e][f](k * n + i, l * m + j);
      J(fe1 + i, fe1 + k) += P(ff + j, ff + l) * x;
      Kx(fe1 + i, ff + j) += P(fe1 + k, ff + l) * x;
    }
  }
}
static M rnd(size_t n, size_t m) { M P(n, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) P(i, j) = H::rr(-1, 1); return P; }
