// C09, C10: radial one-electron operators and confinement potentials against an independent
// composite Gauss-Legendre quadrature of the element functions.
#include "h.h"
#include <FiniteElementBasis.h>
#include <ModelPotential.h>
#include <PolynomialBasis.h>
#include <RadialBasis.h>
#include <algorithm>
#include "utils.h"
using namespace helfem;
using namespace helfem::polynomial_basis;
typedef atomic::basis::FEMRadialBasisT<double> RB;
typedef FiniteElementBasisT<double> FE;
typedef std::function<double(double)> Fn;
typedef Mat<double> M;

static std::vector<double> gx, gw;
static void gauss(int n) {
  gx.resize(n); gw.resize(n);
  for (int i = 0; i < n; i++) {
    long double x = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), dp = 1;
    for (int it = 0; it < 100; it++) {
      long double p0 = 1, p1 = x;
      for (int k = 2; k <= n; k++) { long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
      dp = n * (x * p1 - p0) / (x * x - 1);
      long double d = p1 / dp; x -= d;
      if (fabsl(d) < 1e-19L) break;
    }
    gx[i] = (double)x; gw[i] = (double)(2 / ((1 - x * x) * dp * dp));
  }
}

struct Case { int id, nn; std::vector<double> b; bool dl, fr; std::unique_ptr<FE> fe; std::unique_ptr<RB> rb; int nq; };
static const int IDS[] = {3, 4, 5, 8, 9};
static Case make(int maxel, double rmin = 0.2, double rmax = 2.5) {
  Case c;
  c.id = IDS[H::ri(0, 4)];
  int hi = c.id == 3 || c.id == 4 ? 8 : c.id == 5 ? 5 : 3;
  c.nn = H::ri(c.id == 3 ? 4 : c.id == 4 ? 3 : 2, hi);
  int ne = H::ri(1, maxel);
  double x = 0;
  c.b.push_back(0);
  for (int i = 0; i < ne; i++) { x += H::rr(rmin, rmax); c.b.push_back(x); }
  c.fr = H::rb();
  c.nq = H::ri(10, 40);
  Vec<double> bv(c.b.size());
  std::string m;
  for (size_t i = 0; i < c.b.size(); i++) { bv(i) = c.b[i]; m += H::str(" %.17g", c.b[i]); }
  std::shared_ptr<const PolynomialBasisT<double>> poly(get_basis_T<double>(c.id, c.nn));
  c.fe.reset(new FE(poly, bv, true, false, c.fr, c.fr && H::rb() && c.id >= 5));
  c.rb.reset(new RB(*c.fe, c.nq));
  H::kase("family=%d nodes=%d nquad=%d zeroright=%d mesh=[%s ]", c.id, c.nn, c.nq, c.fr, m.c_str());
  return c;
}

// integral over element iel of B^(d1)_i B^(d2)_j f(r), split at the kinks
static M ref(const FE &fe, size_t iel, int d1, int d2, const Fn &f, std::vector<double> kinks = {}, double xl = -1, double xr = 1, double *scale = nullptr) {
  double a = fe.element_begin(iel), b = fe.element_end(iel);
  double A = (a + b) / 2 + (b - a) / 2 * xl, B = (a + b) / 2 + (b - a) / 2 * xr;
  std::vector<double> pts{A};
  std::sort(kinks.begin(), kinks.end());
  for (double k : kinks) if (k > A && k < B) pts.push_back(k);
  pts.push_back(B);
  M S, Sa;
  for (size_t s = 0; s + 1 < pts.size(); s++) {
    Vec<double> x(gx.size()), w(gx.size());
    for (size_t q = 0; q < gx.size(); q++) {
      double r = (pts[s] + pts[s + 1]) / 2 + (pts[s + 1] - pts[s]) / 2 * gx[q];
      x(q) = std::min(1.0, std::max(-1.0, (r - (a + b) / 2) / ((b - a) / 2)));
      w(q) = gw[q] * (pts[s + 1] - pts[s]) / 2 * f(r);
    }
    M L = fe.eval_dnf(x, d1, iel), R = fe.eval_dnf(x, d2, iel);
    M t = L.transpose() * w.asDiagonal() * R;
    M ta = L.cwiseAbs().transpose() * w.cwiseAbs().asDiagonal() * R.cwiseAbs();
    if (s) { S += t; Sa += ta; } else { S = t; Sa = ta; }
  }
  if (scale) *scale = Sa.maxCoeff();
  return S;
}
static M assemble(const FE &fe, const std::function<M(size_t)> &e) {
  M S = M::Zero(fe.get_nbf(), fe.get_nbf());
  for (size_t i = 0; i < fe.get_nelem(); i++) {
    size_t f, l; fe.get_idx(i, f, l);
    S.block(f, f, l - f + 1, l - f + 1) += e(i);
  }
  return S;
}
static void cmp(const M &a, const M &b, double tol, const char *clause, const std::string &extra = "", double scale = 0) {
  if (!H::ok(a.rows() == b.rows() && a.cols() == b.cols(), "matrix has one row and column per function", extra)) return;
  if (scale == 0) scale = b.size() ? b.cwiseAbs().maxCoeff() : 1;
  double worst = -1; Eigen::Index wi = 0, wj = 0;
  for (Eigen::Index i = 0; i < a.rows(); i++) for (Eigen::Index j = 0; j < a.cols(); j++) {
    double d = std::fabs(a(i, j) - b(i, j));
    if (!(d <= worst)) { worst = d; wi = i; wj = j; if (d != d) { i = a.rows(); break; } }
  }
  H::ok(worst <= tol * std::max(scale, 1e-300), clause, extra + H::str(" entry (%ld,%ld) got %.17g expected %.17g", (long)wi, (long)wj, a.size() ? a(wi, wj) : 0, b.size() ? b(wi, wj) : 0));
}

struct Model : modelpotential::ModelPotentialT<double> {
  double a, k; mutable double lo = 0, hi = 0;
  Model(double a_, double k_) : a(a_), k(k_) {}
  double V(double r) const override { return r < k ? -a : -a * k / r + 0.3 * (r - k); }
  std::vector<double> breakpoints(double l, double h) const override { lo = l; hi = h; std::vector<double> v; if (k > l && k < h) v.push_back(k); return v; }
};

static double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }

static void c09(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    Case c = make(5);
    const FE &fe = *c.fe; const RB &rb = *c.rb;
    auto one = [](double) { return 1.0; };
    H::ok(rb.Nbf() == fe.get_nbf() && rb.Nel() == fe.get_nelem(), "counts are those of the finite-element basis");
    cmp(rb.overlap(), assemble(fe, [&](size_t e) { return ref(fe, e, 0, 0, one); }), 1e-11, "overlap = int B_i B_j dr");
    cmp(rb.kinetic(), assemble(fe, [&](size_t e) { return M(0.5 * ref(fe, e, 1, 1, one)); }), 1e-11, "kinetic = 1/2 int B_i' B_j' dr");
    cmp(rb.kinetic_l(), assemble(fe, [&](size_t e) { return M(0.5 * ref(fe, e, 0, 0, [](double r) { return 1 / (r * r); })); }), 1e-9, "kinetic_l = 1/2 int B_i B_j / r^2 dr");
    cmp(rb.nuclear(), assemble(fe, [&](size_t e) { return M(-ref(fe, e, 0, 0, [](double r) { return 1 / r; })); }), 1e-10, "nuclear = - int B_i B_j / r dr");
    for (size_t e = 0; e < fe.get_nelem(); e++) {
      std::string es = H::str("element %zu", e);
      cmp(rb.overlap(e), ref(fe, e, 0, 0, one), 1e-11, "element overlap = int B_i B_j dr", es);
      cmp(rb.kinetic(e), 0.5 * ref(fe, e, 1, 1, one), 1e-11, "element kinetic = 1/2 int B_i' B_j' dr", es);
      cmp(rb.kinetic_l(e), 0.5 * ref(fe, e, 0, 0, [](double r) { return 1 / (r * r); }), 1e-9, "element kinetic_l = 1/2 int B_i B_j / r^2 dr", es);
      cmp(rb.nuclear(e), -ref(fe, e, 0, 0, [](double r) { return 1 / r; }), 1e-10, "element nuclear = - int B_i B_j / r dr", es);
      int n = H::ri(-2, 4);
      double xl = -1, xr = 1;
      if (H::rb()) { xl = H::rr(-1, 0.2); xr = H::rr(xl + 0.2, 1); }
      cmp(rb.radial_integral(n, e, xl, xr), ref(fe, e, 0, 0, [&](double r) { return std::pow(r, n); }, {}, xl, xr), 1e-9, "radial moment = int B_i B_j r^n dr over the requested range", es + H::str(" n=%d x=[%.17g,%.17g]", n, xl, xr));
      Model m(H::rr(0.5, 5), H::rr(0.05, c.b.back()));
      cmp(rb.model_potential(&m, e), ref(fe, e, 0, 0, [&](double r) { return m.V(r); }, {m.k}), 1e-9, "model potential = int B_i B_j V(r) dr, split at the model's kinks", es + H::str(" kink %.17g", m.k));
      int L = H::ri(0, 4); double lam = H::rr(0.1, 1.5);
      if (e > 0 || L == 0) {
        double sc;
        M il = ref(fe, e, 0, 0, [&](double r) { return utils::bessel_il<double>(lam * r, L); }, {}, -1, 1, &sc);
        cmp(rb.bessel_il_integral(L, lam, e), il, 1e-9, "Bessel integral = int B_i B_j i_L(lambda r) dr", es + H::str(" L=%d lambda=%.17g", L, lam), sc);
        if (e > 0) {
          M kl = ref(fe, e, 0, 0, [&](double r) { return utils::bessel_kl<double>(lam * r, L); }, {}, -1, 1, &sc);
          cmp(rb.bessel_kl_integral(L, lam, e), kl, 1e-9, "Bessel integral = int B_i B_j k_L(lambda r) dr", es + H::str(" L=%d lambda=%.17g", L, lam), sc);
        }
      }
      double eb = c.b[e], ee = c.b[e + 1];
      double pre = std::sqrt(4 * M_PI / (2 * L + 1));
      if (e > 0) {
        double Rh = H::rb() ? eb : eb * H::rr(0.1, 1);
        cmp(rb.nuclear_offcenter(e, Rh, L), -pre * std::pow(Rh, L) * ref(fe, e, 0, 0, [&](double r) { return std::pow(r, -L - 1); }), 1e-9, "off-centre nucleus inside: -sqrt(4pi/(2L+1)) Rhalf^L <r^(-L-1)>", es + H::str(" Rhalf=%.17g L=%d", Rh, L));
      }
      double Ro = H::rb() ? ee : ee * H::rr(1, 4);
      cmp(rb.nuclear_offcenter(e, Ro, L), -pre * std::pow(Ro, -L - 1) * ref(fe, e, 0, 0, [&](double r) { return std::pow(r, L); }), 1e-9, "off-centre nucleus outside: -sqrt(4pi/(2L+1)) <r^L> Rhalf^(-L-1)", es + H::str(" Rhalf=%.17g L=%d", Ro, L));
      H::ok(H::throws([&] { rb.nuclear_offcenter(e, eb + (ee - eb) * H::rr(0.1, 0.9), L); }), "a nucleus strictly inside an element is rejected", es);
      // point values
      Vec<double> x(4); for (int q = 0; q < 4; q++) x(q) = H::rr(-0.97, 1);
      M B0 = fe.eval_dnf(x, 0, e), B1 = fe.eval_dnf(x, 1, e), B2 = fe.eval_dnf(x, 2, e);
      M bf = rb.get_bf(x, e), df = rb.get_df(x, e), lf = rb.get_lf(x, e);
      Vec<double> r = rb.get_r(x, e), wr = rb.get_wrad(x, e);
      M b0(B0), b1(B0), b2(B0);
      for (int q = 0; q < 4; q++) {
        double rq = (eb + ee) / 2 + (ee - eb) / 2 * x(q);
        H::near(r(q), rq, 1e-13, "radius of a reference point", es);
        H::near(rb.get_r(x(q), e), rq, 1e-13, "radius of a reference point", es);
        H::near(wr(q), x(q) * (ee - eb) / 2, 1e-13, "radial weight is the reference weight times half the element length", es);
        for (int j = 0; j < B0.cols(); j++) {
          b0(q, j) = B0(q, j) / rq;
          b1(q, j) = B1(q, j) / rq - B0(q, j) / rq / rq;
          b2(q, j) = B2(q, j) / rq - 2 * B1(q, j) / rq / rq + 2 * B0(q, j) / rq / rq / rq;
        }
      }
      double s0 = std::max(1.0, B0.cwiseAbs().maxCoeff()) / r.minCoeff(), s1 = std::max(1.0, B1.cwiseAbs().maxCoeff()) / r.minCoeff() + s0 / r.minCoeff(), s2 = std::max(1.0, B2.cwiseAbs().maxCoeff()) / r.minCoeff() + 2 * s1 / r.minCoeff();
      cmp(bf, b0, 1e-9, "R = B/r", es, s0); cmp(df, b1, 1e-9, "dR/dr", es, s1); cmp(lf, b2, 1e-8, "d2R/dr2", es, s2);
    }
    // quadrature cache
    {
      RB cold(fe, c.nq), warm(fe, c.nq);
      bool ndf = H::rb(), nlf = H::rb();
      warm.fill_quadrature_cache(ndf, nlf);
      if (H::rb()) warm.fill_quadrature_cache(true, true);
      for (size_t e = 0; e < fe.get_nelem(); e++) {
        H::ok(warm.get_bf(e) == cold.get_bf(e) && warm.get_df(e) == cold.get_df(e) && warm.get_lf(e) == cold.get_lf(e), "values at the quadrature points do not depend on the cache", H::str("element %zu", e));
        H::ok(cold.get_bf(e) == cold.get_bf(cold.get_xq(), e) && cold.get_r(e) == cold.get_r(cold.get_xq(), e), "values at the quadrature points are those at the stored nodes", H::str("element %zu", e));
      }
    }
    // orbitals and nuclear values
    size_t nb = fe.get_nbf();
    M C = M::Random(nb, 3), P = M::Random(nb, nb);
    for (int q = 0; q < 4; q++) {
      double r = H::ri(0, 4) == 0 ? c.b[H::ri(1, (int)c.b.size() - 1)] : H::rr(0.01, c.b.back());
      Vec<double> o = rb.eval_orbs(C, r);
      size_t e = 0; while (e + 1 < fe.get_nelem() && r > c.b[e + 1]) e++;
      Vec<double> x(1); x(0) = std::min(1.0, std::max(-1.0, (r - (c.b[e] + c.b[e + 1]) / 2) / ((c.b[e + 1] - c.b[e]) / 2)));
      size_t f, l; fe.get_idx(e, f, l);
      M v = fe.eval_dnf(x, 0, e) * C.block(f, 0, l - f + 1, 3) / r;
      for (int k = 0; k < 3; k++) H::near(o(k), v(0, k), 1e-8, "orbital value = sum of coefficients times B/r", H::str("r=%.17g", r), 1 / r);
    }
    Vec<double> z = rb.eval_orbs(C, c.b.back() * (1 + 1e-6));
    H::ok(z.size() == 3 && z.cwiseAbs().maxCoeff() == 0, "orbitals vanish beyond the last boundary");
    Vec<double> xm(1); xm(0) = -1;
    M d1 = fe.eval_dnf(xm, 1, 0), d2 = fe.eval_dnf(xm, 2, 0);
    size_t n0 = d1.cols();
    double nd = (d1 * P.block(0, 0, n0, n0) * d1.transpose())(0, 0), ng = (d1 * P.block(0, 0, n0, n0) * d2.transpose())(0, 0);
    double sc = d1.cwiseAbs().sum(); sc *= sc + d2.cwiseAbs().sum();
    H::near(rb.nuclear_density(P), nd, 1e-11, "density at the nucleus = P B'(0) B'(0)", "", sc);
    H::near(rb.nuclear_density_gradient(P), ng, 1e-11, "density slope at the nucleus = P B'(0) B''(0)", "", sc);
    M no = rb.nuclear_orbital(C), ne = d1 * C.block(0, 0, n0, 3);
    cmp(no, ne, 1e-11, "orbitals at the nucleus = C B'(0)", "", std::max(1.0, d1.cwiseAbs().sum()));
    H::ok(H::throws([&] { rb.nuclear_density(M::Zero(nb + 1, nb)); }) && H::throws([&] { rb.nuclear_density_gradient(M::Zero(nb, nb + 1)); }), "a density matrix of the wrong size is rejected");
    // projections between two bases
    Case d = make(3);
    std::vector<double> all = c.b; all.insert(all.end(), d.b.begin(), d.b.end());
    auto cross = [&](int a, int b, const Fn &f) {
      M S = M::Zero(nb, d.fe->get_nbf());
      std::vector<double> u = all; std::sort(u.begin(), u.end());
      for (size_t s = 0; s + 1 < u.size(); s++) {
        double A = u[s], B = u[s + 1], mid = (A + B) / 2;
        if (B - A < 1e-12 || B > c.b.back() + 1e-12 || B > d.b.back() + 1e-12) continue;
        size_t e = 0, g = 0; while (mid > c.b[e + 1]) e++; while (mid > d.b[g + 1]) g++;
        Vec<double> x(gx.size()), y(gx.size()), w(gx.size());
        for (size_t q = 0; q < gx.size(); q++) {
          double r = mid + (B - A) / 2 * gx[q];
          x(q) = (2 * r - c.b[e] - c.b[e + 1]) / (c.b[e + 1] - c.b[e]);
          y(q) = (2 * r - d.b[g] - d.b[g + 1]) / (d.b[g + 1] - d.b[g]);
          w(q) = gw[q] * (B - A) / 2 * f(r);
        }
        size_t f1, l1, f2, l2; fe.get_idx(e, f1, l1); d.fe->get_idx(g, f2, l2);
        M X = fe.eval_dnf(x, a, e), Y = d.fe->eval_dnf(y, b, g);
        S.block(f1, f2, l1 - f1 + 1, l2 - f2 + 1) += X.transpose() * w.asDiagonal() * Y;
      }
      return S;
    };
    cmp(rb.overlap(*d.rb), cross(0, 0, one), 1e-9, "projection overlap = int B_i b_j dr over the common range");
    int n = H::ri(0, 3); bool ld = H::rb(), rd = H::rb();
    cmp(rb.radial_integral(*d.rb, n, ld, rd), cross(ld, rd, [&](double r) { return std::pow(r, n); }), 1e-9, "projection moment = int B_i b_j r^n dr with the requested derivatives", H::str("n=%d derivatives %d %d", n, ld, rd));
  });
}

static void c10(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    Case c = make(4);
    const FE &fe = *c.fe; const RB &rb = *c.rb;
    for (size_t e = 0; e < fe.get_nelem(); e++) {
      double r0 = (H::ri(0, 3) == 0 ? -1 : 1) * H::rr(0.4, 4), V = H::rr(0.1, 5);
      double eb = c.b[e], ee = c.b[e + 1];
      for (int sk = 0; sk < 4; sk++) {
        double s = sk == 0 ? 0 : sk == 1 ? H::rr(eb, ee) : sk == 2 ? H::rr(0, c.b.back() * 1.1) : c.b[H::ri(0, (int)c.b.size() - 1)];
        auto es = [&](int n) { return H::str("element %zu [%.17g,%.17g] N=%d r0=%.17g V=%.17g shift=%.17g", e, eb, ee, n, r0, V, s); };
        double ar = std::fabs(r0), sg = r0 < 0 ? -1 : 1;
        int n = H::ri(0, 5);
        double sc;
        M p = ref(fe, e, 0, 0, [&](double r) { return r < s ? 0.0 : sg * std::pow((r - s) / ar, n); }, {s}, -1, 1, &sc);
        cmp(rb.confinement_potential(e, n, r0, 1, V, s), p, 1e-9, "polynomial confinement is +-((r-s)/|r0|)^N beyond the onset and zero inside", es(n), std::max(sc, 1e-3));
        if (s == 0) {
          int m = -H::ri(1, 2);
          M q = ref(fe, e, 0, 0, [&](double r) { return sg * std::pow(r, m) * std::pow(ar, m); }, {}, -1, 1, &sc);
          cmp(rb.confinement_potential(e, m, r0, 1, V, 0), q, 1e-9, "divergent polynomial potential", es(m), sc);
        } else
          H::ok(H::throws([&] { rb.confinement_potential(e, -H::ri(1, 3), r0, 1, V, s); }), "a divergent potential with a shift is rejected", es(-1));
        int k = H::ri(1, 5);
        M x = ref(fe, e, 0, 0, [&](double r) {
          if (r < s) return 0.0;
          long double t = (r - s) / ar, v = 0, a = 1;
          // N! (e^t - partial sum) = sum_{m>=N} N!/m! t^m
          for (int m = 0; m < k; m++) a *= t;
          long double f = 1;
          for (int m = k; m < 200; m++) { v += a * f; a *= t; f /= m + 1; }
          return (double)v;
        }, {s}, -1, 1, &sc);
        if (ee - s < 25 * ar) cmp(rb.confinement_potential(e, k, r0, 2, V, s), x, 1e-8, "exponential confinement is N!(e^x - sum_{k<N} x^k/k!)", es(k), std::max(sc, 1e-2));
        M bb = ref(fe, e, 0, 0, [&](double r) { return r < s ? 0.0 : V; }, {s}, -1, 1, &sc);
        cmp(rb.confinement_potential(e, n, r0, 3, V, s), bb, 1e-9, "barrier is V beyond the onset and zero inside", es(n), std::max(sc, 1e-3));
        double rc = c.b.back();
        if (s < rc && e + 1 < fe.get_nelem()) {
          int j = H::ri(1, 3);
          Fn f = [&](double r) { return r <= s ? 0.0 : V * std::exp(-(rc - s) / (r - s)) / std::pow(rc - r, j); };
          std::vector<double> ks; for (int z = 0; z < 12; z++) ks.push_back(s + (ee - s) * std::pow(0.5, z));
          M q = ref(fe, e, 0, 0, f, ks, -1, 1, &sc);
          cmp(rb.confinement_potential(e, j, r0, 4, V, s), q, 1e-6, "Junquera confinement is V exp(-(rc-s)/(r-s))/(rc-r)^N beyond the onset", es(j), std::max(sc, 1e-3));
        }
        H::ok(H::throws([&] { rb.confinement_potential(e, 1, r0, 3, -V, s); }), "an attractive barrier is rejected", es(1));
        H::ok(H::throws([&] { rb.confinement_potential(e, -H::ri(0, 3), r0, 2, V, s); }), "exponential confinement with N<1 is rejected", es(0));
        H::ok(H::throws([&] { rb.confinement_potential(e, -H::ri(0, 3), r0, 4, V, s); }), "Junquera confinement with N<1 is rejected", es(0));
        H::ok(H::throws([&] { rb.confinement_potential(e, 1, r0, 4, H::rb() ? 0 : -V, s); }), "an attractive Junquera potential is rejected", es(1));
        H::ok(H::throws([&] { rb.confinement_potential(e, 1, r0, H::rb() ? 0 : H::ri(5, 9), V, s); }), "an unknown confinement type is rejected", es(1));
      }
    }
  });
}

int main(int argc, char **argv) {
  H::init();
  gauss(60);
  std::string p = argc > 1 ? argv[1] : "C09";
  if (p == "C09") c09(H::thorough ? 600 : 60);
  else c10(H::thorough ? 400 : 40);
  return H::finish();
}
