// C26 diatomic one-electron operators and function values, C27 diatomic Coulomb and exchange:
// against direct quadrature in prolate spheroidal coordinates with independent spherical harmonics
// and associated Legendre functions of the first and second kind.
#include "angq.h"
#include "diatomic/basis.h"
#include "utils.h"
typedef diatomic::basis::TwoDBasis DT;
typedef std::function<double(double, double)> F2; // of mu and cos(nu)

struct Di { Rad r; VI l, m; double Rh; int Z1, Z2, nq; std::vector<size_t> pure; std::unique_ptr<DT> b; std::string desc; };
static Di mk(int lmax, int maxel, bool leg, bool whole = false) {
  Di a;
  int mm = H::ri(0, lmax);
  std::vector<int> lm; for (int m = 0; m <= mm; m++) lm.push_back(H::ri(m, lmax));
  Eigen::VectorXi le, me, arg = ev(lm);
  diatomic::basis::lm_to_l_m(arg, le, me);
  VI xl, xm;
  for (int m = 0; m <= mm; m++) for (int l = m; l <= lm[m]; l++) { xl.push_back(l); xm.push_back(m); if (m) { xl.push_back(l); xm.push_back(-m); } }
  a.l.assign(le.data(), le.data() + le.size()); a.m.assign(me.data(), me.data() + me.size());
  std::string lms = vis(lm);
  if (a.l != xl || a.m != xm) H::fail("angular functions of an lmax(|m|) list are l=|m|..lmax with both signs of m", lms);
  if (H::rb()) for (size_t i = a.l.size() - 1; i > 0; i--) { size_t j = H::ri(0, i); std::swap(a.l[i], a.l[j]); std::swap(a.m[i], a.m[j]); }
  if (!whole && H::ri(0, 2) == 0 && a.l.size() > 2) { size_t k = H::ri(1, a.l.size() - 1); a.l.resize(k); a.m.resize(k); }
  int id = IDS[H::ri(0, 4)], nn = H::ri(id == 3 ? 4 : id == 4 ? 3 : 2, id == 3 || id == 4 ? 5 : id == 5 ? 3 : 2), ne = H::ri(1, maxel);
  double x = 0; a.r.b.push_back(0);
  for (int i = 0; i < ne; i++) { x += H::rr(0.3, 1.3); a.r.b.push_back(x); }
  Vec<double> bv(a.r.b.size()); std::string ms;
  for (size_t i = 0; i < a.r.b.size(); i++) { bv(i) = a.r.b[i]; ms += H::str(" %.17g", bv(i)); }
  std::shared_ptr<const PolynomialBasisT<double>> poly(get_basis_T<double>(id, nn));
  a.r.fe.reset(new FE(poly, bv, false, false, true, true));
  a.nq = H::ri(15, 40); a.Z1 = H::ri(0, 9); a.Z2 = H::rb() ? a.Z1 : H::ri(0, 9); a.Rh = H::rr(0.3, 2);
  a.desc = H::str("diatomic basis l=%s m=%s family=%d nodes=%d mesh=[%s ] Z1=%d Z2=%d Rhalf=%.17g nquad=%d", vis(a.l).c_str(), vis(a.m).c_str(), id, nn, ms.c_str(), a.Z1, a.Z2, a.Rh, a.nq);
  H::kase("%s", a.desc.c_str());
  a.b.reset(new DT(a.Z1, a.Z2, a.Rh, poly, a.nq, bv, ev(a.l), ev(a.m), leg));
  size_t n = a.r.n();
  for (size_t c = 0; c < a.l.size(); c++) for (size_t k = a.m[c] ? 1 : 0; k < n; k++) a.pure.push_back(c * n + k);
  return a;
}
static M pick(const M &X, const std::vector<size_t> &r, const std::vector<size_t> &c) {
  M O(r.size(), c.size());
  for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < c.size(); j++) O(i, j) = X(r[i], c[j]);
  return O;
}
// sum_k angular(f_k) x radial(g_k): an operator given as a list of products, with the volume element
// Rhalf^3 sinh(mu) (cosh^2 mu - cos^2 nu) included
struct Prod { F1 ang, rad; };
static M oper(const Di &a, const std::vector<Prod> &ps) {
  size_t n = a.r.n(), k = a.l.size();
  M O = M::Zero(n * k, n * k);
  auto put = [&](F1 f, F1 g) {
    M X = a.r.integral(g, 0, 0);
    for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) if (a.m[i] == a.m[j]) O.block(i * n, j * n, n, n) += A::cpl(a.l[i], a.m[i], f, a.l[j], a.m[j]) * X;
  };
  double R3 = a.Rh * a.Rh * a.Rh;
  for (auto &p : ps) {
    put(p.ang, [=](double u) { return R3 * std::sinh(u) * std::cosh(u) * std::cosh(u) * p.rad(u); });
    put([=](double x) { return -x * x * p.ang(x); }, [=](double u) { return R3 * std::sinh(u) * p.rad(u); });
  }
  return pick(O, a.pure, a.pure);
}
static double one(double) { return 1; }
static double sq(double x) { return x * x; }
static void c26(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    Di a = mk(3, 4, H::ri(0, 3) == 0);
    const Rad &R = a.r; const DT &b = *a.b; const double h = a.Rh;
    size_t n = R.n(), k = a.l.size();
    H::ok(b.Nbf() == a.pure.size() && b.Ndummy() == n * k && b.Nrad() == n && b.Nang() == k, "functions that do not vanish on the axis are kept for m=0 only");
    auto pi = b.pure_indices();
    bool same = pi.size() == a.pure.size(); for (size_t i = 0; same && i < pi.size(); i++) same = pi[i] == (Eigen::Index)a.pure[i];
    H::ok(same, "functions that do not vanish on the axis are kept for m=0 only");
    M S = oper(a, {{one, one}});
    cmp(b.overlap(), S, 1e-10, "overlap is the integral over Rhalf^3 sinh(mu) (cosh^2 mu - cos^2 nu)");
    { // kinetic energy: Rhalf/2 [sinh B'B' + (l(l+1) sinh + m^2/sinh) BB]; functions that vanish at mu=0 where m != 0
      M T = M::Zero(n * k, n * k);
      M T0 = R.integral([&](double u) { return h / 2 * std::sinh(u); }, 1, 1), T1 = R.integral([&](double u) { return h / 2 * std::sinh(u); }, 0, 0), T2 = R.integral([&](double u) { return h / 2 / std::sinh(u); }, 0, 0);
      for (size_t i = 0; i < k; i++) { T.block(i * n, i * n, n, n) = T0 + double(a.l[i] * (a.l[i] + 1)) * T1; if (a.m[i]) T.block(i * n, i * n, n, n) += double(a.m[i] * a.m[i]) * T2; }
      cmp(b.kinetic(), pick(T, a.pure, a.pure), 1e-9, "kinetic energy in prolate spheroidal coordinates");
    }
    { // nuclear attraction: -(Z1+Z2) cosh(mu) Rhalf^2 sinh - (Z2-Z1) cos(nu) Rhalf^2 sinh
      M V = M::Zero(n * k, n * k);
      M V0 = R.integral([&](double u) { return -h * h * (a.Z1 + a.Z2) * std::sinh(u) * std::cosh(u); }, 0, 0), V1 = R.integral([&](double u) { return -h * h * (a.Z2 - a.Z1) * std::sinh(u); }, 0, 0);
      for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) if (a.m[i] == a.m[j]) V.block(i * n, j * n, n, n) = A::cpl(a.l[i], a.m[i], one, a.l[j], a.m[j]) * V0 + A::cpl(a.l[i], a.m[i], [](double x) { return x; }, a.l[j], a.m[j]) * V1;
      cmp(b.nuclear(), pick(V, a.pure, a.pure), 1e-10, "nuclear attraction is that of Z1 at cos(nu)=-1 and Z2 at cos(nu)=1", "", std::max(1e-3, V.cwiseAbs().maxCoeff()));
    }
    auto ch = [](double u) { return std::cosh(u); };
    auto op = [&](const M &got, const std::vector<Prod> &ps, const char *cl, const std::string &ex = "") { double sc = h * h * h * h * h * std::pow(std::cosh(R.b.back()), 5); M E = oper(a, ps); cmp(got, E, 1e-10, cl, ex, std::max({E.cwiseAbs().maxCoeff(), 1e-3 * sc, 1e-6})); };
    op(b.dipole_z(), {{[](double x) { return x; }, [=](double u) { return h * ch(u); }}}, "dipole operator is z = Rhalf cosh(mu) cos(nu)");
    // (3z^2 - r^2)/2 = z^2 - rho^2/2
    op(b.quadrupole_zz(), {{sq, [=](double u) { return h * h * sq(ch(u)); }}, {[](double x) { return 1 - x * x; }, [=](double u) { return -0.5 * h * h * sq(std::sinh(u)); }}}, "quadrupole operator is (3 z^2 - r^2)/2");
    {
      double B = H::rr(-2, 2);
      M E = oper(a, {{[](double x) { return 1 - x * x; }, [=](double u) { return B * B / 8 * h * h * sq(std::sinh(u)); }}});
      for (size_t i = 0; i < a.pure.size(); i++) for (size_t j = 0; j < a.pure.size(); j++) E(i, j) += -0.5 * B * a.m[a.pure[j] / n] * S(i, j);
      cmp(b.Bz_field(B), E, 1e-10, "magnetic field operator is -B m/2 + B^2 rho^2/8", H::str("B=%.17g", B), std::max(E.cwiseAbs().maxCoeff(), 1e-3));
    }
    { // boundary expansion
      M X = rnd(a.pure.size(), a.pure.size()), Y = M::Zero(n * k, n * k);
      for (size_t i = 0; i < a.pure.size(); i++) for (size_t j = 0; j < a.pure.size(); j++) Y(a.pure[i], a.pure[j]) = X(i, j);
      H::ok(M(b.expand_boundaries(X)) == Y && M(b.remove_boundaries(rnd(n * k, n * k) * 0 + Y)) == X, "boundary removal and expansion keep every entry in place");
      H::ok(H::throws([&] { b.expand_boundaries(M::Zero(a.pure.size() + 1, a.pure.size() + 1)); }) && H::throws([&] { b.remove_boundaries(M::Zero(n * k, n * k + 1)); }), "matrices of the wrong size are refused");
    }
    { // overlap with another basis
      Di c = mk(3, 3, false);
      H::kase("%s with %s", a.desc.c_str(), c.desc.c_str());
      size_t nc = c.r.n(), kc = c.l.size();
      M X0 = M::Zero(n, nc), X2 = X0;
      std::vector<double> p; double end = std::min(R.b.back(), c.r.b.back());
      for (double x : R.b) if (x <= end) p.push_back(x);
      for (double x : c.r.b) if (x <= end) p.push_back(x);
      std::sort(p.begin(), p.end());
      for (size_t i = 0; i + 1 < p.size(); i++) {
        double m = (p[i] + p[i + 1]) / 2, hh = (p[i + 1] - p[i]) / 2; if (hh <= 0) continue;
        size_t e = R.el(m), f = c.r.el(m);
        for (size_t q = 0; q < gx.size(); q++) { double u = m + hh * gx[q]; M s = hh * gw[q] * std::sinh(u) * R.at(u, 0, e) * c.r.at(u, 0, f).transpose(); X0 += s; X2 += s * sq(std::cosh(u)); }
      }
      M O = M::Zero(n * k, nc * kc);
      for (size_t i = 0; i < k; i++) for (size_t j = 0; j < kc; j++) if (a.m[i] == c.m[j]) O.block(i * n, j * nc, n, nc) = h * h * h * (A::cpl(a.l[i], a.m[i], one, c.l[j], c.m[j]) * X2 - A::cpl(a.l[i], a.m[i], sq, c.l[j], c.m[j]) * X0);
      cmp(b.overlap(*c.b), pick(O, a.pure, c.pure), 1e-10, "overlap between two bases uses the functions of each and the metric of the first", "", std::max(1e-3, O.cwiseAbs().maxCoeff()));
    }
    // function values
    size_t e = H::ri(0, R.fe->get_nelem() - 1), f, l; R.fe->get_idx(e, f, l); size_t ni = l - f + 1;
    double x = H::ri(0, 7) ? H::rr(-0.999, 0.999) : H::rb() ? 1 : -1, ph = H::rr(-4, 4), lo = R.fe->element_begin(e), hi = R.fe->element_end(e);
    Vec<double> rr = b.get_r(e), wr = b.get_wrad(e);
    H::ok(rr.size() == a.nq && wr.size() == a.nq && b.get_nquad() == a.nq, "one point per quadrature node");
    double ws = 0, wm = 0; for (Eigen::Index q = 0; q < rr.size(); q++) { ws += wr(q) * std::exp(-rr(q)); wm += wr(q); }
    H::near(ws, std::exp(-lo) - std::exp(-hi), 1e-6, "radial weights integrate over the element in mu");
    H::near(wm, hi - lo, 1e-6, "radial weights integrate over the element in mu");
    M b0 = b.get_rad_bf(e), b1 = b.get_rad_df(e), b2 = b.get_rad_d2f(e);
    std::vector<size_t> all, mine;
    int mq = a.m[H::ri(0, k - 1)];
    for (size_t c = 0; c < k; c++) for (size_t j = f; j <= l; j++) { all.push_back(c * n + j); if (a.m[c] == mq) mine.push_back(c * n + j); }
    auto idx = b.bf_list_dummy(e), idm = b.bf_list_dummy(e, mq), idr = b.bf_list(e);
    auto eq = [](const std::vector<Eigen::Index> &g, const std::vector<size_t> &x) { if (g.size() != x.size()) return false; for (size_t i = 0; i < g.size(); i++) if (g[i] != (Eigen::Index)x[i]) return false; return true; };
    std::vector<size_t> real; for (size_t d : all) for (size_t i = 0; i < a.pure.size(); i++) if (a.pure[i] == d) real.push_back(i);
    if (!H::ok(eq(idx, all) && eq(idm, mine) && eq(idr, real), "functions of an element, of one m, and those that are kept")) return;
    H::ok(H::throws([&] { b.dummy_idx_to_real_idx({(Eigen::Index)(n * k)}); }), "function indices out of range are refused");
    for (Eigen::Index q = 0; q < rr.size(); q += 6) {
      double u = rr(q);
      Eigen::VectorXd B0 = R.at(u, 0, e), B1 = R.at(u, 1, e), B2 = R.at(u, 2, e);
      double sc = 1 + B0.cwiseAbs().maxCoeff() + B1.cwiseAbs().maxCoeff() + B2.cwiseAbs().maxCoeff();
      for (size_t j = 0; j < ni; j++) { H::ok(std::fabs(b0(q, j) - B0(f + j)) < 1e-9 * sc && std::fabs(b1(q, j) - B1(f + j)) < 1e-9 * sc && std::fabs(b2(q, j) - B2(f + j)) < 1e-8 * sc, "radial functions and derivatives at the quadrature points", H::str("element %zu point %ld function %zu", e, (long)q, j)); }
      Eigen::MatrixXcd v = b.eval_bf(e, q, x, ph), dr, dt, dp;
      M vm = b.eval_bf(e, q, x, mq), vr = b.eval_bf(e, q, x, mq, b0), dmr, dmt, lf;
      if (std::fabs(x) < 1) { b.eval_df(e, q, x, ph, dr, dt, dp); b.eval_df(e, q, x, mq, dmr, dmt); b.eval_lf(e, q, x, mq, lf); }
      if (!H::ok((size_t)v.cols() == all.size() && (size_t)vm.cols() == mine.size() && (size_t)vr.cols() == mine.size(), "one column per function of the element")) return;
      double h2 = h * h * (sq(std::sinh(u)) + 1 - x * x);
      auto w = [&](size_t d) { return H::str("element %zu mu=%.17g cos=%.17g phi=%.17g l=%d m=%d radial %zu", e, u, x, ph, a.l[d / n], a.m[d / n], d % n); };
      for (size_t c = 0; c < all.size(); c++) {
        size_t d = all[c]; int ll = a.l[d / n], mm = a.m[d / n]; size_t j = d % n;
        std::complex<double> y = A::Y(ll, mm, x, ph);
        auto zz = [&](std::complex<double> g, std::complex<double> ex, const char *cl) { H::ok(std::abs(g - ex) <= 1e-9 * sc, cl, w(d) + H::str(" got %.12g%+.12gi expected %.12g%+.12gi", g.real(), g.imag(), ex.real(), ex.imag())); };
        zz(v(0, c), B0(j) * y, "basis function is B(mu) Y_lm(nu,phi)");
        if (std::fabs(x) < 1) {
          zz(dr(0, c), B1(j) * y, "derivative with respect to mu");
          zz(dt(0, c), B0(j) * A::dtheta(ll, mm, x) * std::polar(1.0, mm * ph), "derivative with respect to nu");
          zz(dp(0, c), B0(j) * std::complex<double>(0, mm) * y, "derivative with respect to phi");
        }
      }
      for (size_t c = 0; c < mine.size(); c++) {
        size_t d = mine[c]; int ll = a.l[d / n], mm = a.m[d / n]; size_t j = d % n;
        double y = A::theta(ll, mm, x);
        H::near(vm(0, c), B0(j) * y, 1e-9, "functions of one m are taken at phi=0", w(d), sc);
        H::near(vr(0, c), B0(j) * y, 1e-9, "functions of one m are taken at phi=0", w(d), sc);
        if (std::fabs(x) < 1) {
          H::near(dmr(0, c), B1(j) * y, 1e-9, "derivative with respect to mu, one m", w(d), sc);
          H::near(dmt(0, c), B0(j) * A::dtheta(ll, mm, x), 1e-9, "derivative with respect to nu, one m", w(d), sc);
          double t = std::tanh(u), e2 = (B2(j) + B1(j) / t - (ll * (ll + 1) + mm * mm / sq(std::sinh(u))) * B0(j)) * y / h2;
          H::near(lf(0, c), e2, 1e-8, "laplacian of a function", w(d), sc * (1 + 1 / t + mm * mm / sq(std::sinh(u)) + ll * (ll + 1)) * std::max(1.0, 1 / h2));
        }
      }
    }
    { // values anywhere
      double u = H::ri(0, 5) ? H::rr(0, R.b.back()) : R.b[H::ri(0, R.b.size() - 1)];
      Eigen::VectorXcd v = b.eval_bf(u, x, ph); Eigen::VectorXd B0 = R.at(u, 0, R.el(u));
      if (H::ok((size_t)v.size() == a.pure.size(), "one value per function")) for (size_t i = 0; i < a.pure.size(); i++) {
        size_t d = a.pure[i]; std::complex<double> ex = B0(d % n) * A::Y(a.l[d / n], a.m[d / n], x, ph);
        H::ok(std::abs(v(i) - ex) < 1e-9 * (1 + std::abs(ex)), "basis function is B(mu) Y_lm(nu,phi)", H::str("mu=%.17g cos=%.17g phi=%.17g function %zu", u, x, ph, i));
      }
      H::ok(H::throws([&] { b.eval_bf(R.b.back() * 1.01 + 0.1, x, ph); }), "points outside the grid are refused");
    }
    if (it % 4 == 0) { // orthonormal functions
      int sym = H::ri(0, 2); bool chol = H::rb();
      M X = b.Sinvh(chol, sym);
      M I = X.transpose() * S * X;
      auto w = H::str("symmetry %d cholesky %d", sym, chol);
      cmp(I, M(M::Identity(I.rows(), I.cols())), 1e-6, "half-inverse overlap makes the functions orthonormal", w, 1);
      bool pure = true;
      if (sym) for (Eigen::Index j = 0; j < X.cols(); j++) { int ms = 99, pr = 9; for (Eigen::Index i = 0; i < X.rows(); i++) if (std::fabs(X(i, j)) > 1e-10) { size_t ch2 = a.pure[i] / n; if (ms == 99) { ms = a.m[ch2]; pr = a.l[ch2] & 1; } if (a.m[ch2] != ms || (sym == 2 && (a.l[ch2] & 1) != pr)) pure = false; } }
      H::ok(pure, "symmetry-adapted functions have one m (and one parity)", w);
    }
  });
}

// ---------------------------------------------------------------- C27
// P_L^M, Q_L^M of x = cosh(u) > 1: (x^2-1)^{M/2} times the M-th derivative
static void leg(int Lm, int Mm, long double u, std::vector<std::vector<long double>> &P, std::vector<std::vector<long double>> &Q) {
  long double x = coshl(u), s = sinhl(u);
  P.assign(Mm + 1, std::vector<long double>(Lm + 2, 0)); Q = P;
  long double d = 1;
  for (int m = 0; m <= Mm; m++) {
    if (m) d *= (2 * m - 1) * s;
    if (m <= Lm) P[m][m] = d;
    for (int l = m + 1; l <= Lm; l++) P[m][l] = ((2 * l - 1) * x * P[m][l - 1] - (l + m - 1) * (l - 2 >= m ? P[m][l - 2] : 0)) / (l - m);
  }
  long double q0 = 0.5L * logl((x + 1) / (2 * sinhl(u / 2) * sinhl(u / 2)));
  Q[0][0] = q0; if (Lm >= 1) Q[0][1] = x * q0 - 1;
  if (u * Lm < 2) for (int l = 2; l <= Lm; l++) Q[0][l] = ((2 * l - 1) * x * Q[0][l - 1] - (l - 1) * Q[0][l - 2]) / l;
  else { // downward from a large degree
    int T = Lm + 30 + (int)(60 / u);
    long double a = 0, b = 1e-300L; std::vector<long double> v(Lm + 1);
    for (int l = T; l >= 1; l--) { long double c = ((2 * l + 1) * x * b - (l + 1) * a) / l; a = b; b = c; if (fabsl(b) > 1e1000L) { a *= 1e-1000L; b *= 1e-1000L; for (auto &t : v) t *= 1e-1000L; } if (l - 1 <= Lm) v[l - 1] = b; }
    for (int l = 0; l <= Lm; l++) Q[0][l] = v[l] / v[0] * q0;
  }
  for (int l = 0; l <= Lm; l++) {
    // (x^2-1) Q_l' = l (x Q_l - Q_{l-1}); for l = 0 Q_0' = -1/(x^2-1)
    if (Mm >= 1) Q[1][l] = l ? l * (x * Q[0][l] - Q[0][l - 1]) / s : -1 / s;
    for (int m = 0; m + 2 <= Mm; m++) Q[m + 2][l] = -2 * (m + 1) * x / s * Q[m + 1][l] + (long double)(l - m) * (l + m + 1) * Q[m][l];
  }
}
struct Pt { double u, w; size_t e; };
// pair functions of all radial functions at u, N^2
static Eigen::VectorXd pr(const Rad &R, double u, size_t e) { Eigen::VectorXd f = R.at(u, 0, e); M p = f * f.transpose(); return Eigen::Map<Eigen::VectorXd>(p.data(), p.size()); }
struct Neu { int Lm, Mm; size_t n; std::vector<M> T[2][2]; const M &t(int a, int b, int L, int Ma) const { return T[a][b][L * (Mm + 1) + Ma]; } };
static Neu neumann(const Rad &R, int Lm, int Mm) {
  Neu o; o.Lm = Lm; o.Mm = Mm; o.n = R.n();
  size_t N2 = o.n * o.n, nlm = (Lm + 1) * (Mm + 1);
  std::vector<Eigen::VectorXd> U[2]; for (int a = 0; a < 2; a++) { U[a].assign(nlm, Eigen::VectorXd::Zero(N2)); for (int b = 0; b < 2; b++) o.T[a][b].assign(nlm, M::Zero(N2, N2)); }
  std::vector<std::vector<long double>> P, Q;
  const int NO = 44, NI = 10;
  gauss(NI); auto ix = gx, iw = gw; gauss(NO); auto oxx = gx, ow = gw; gauss(40);
  double prev = 0;
  for (size_t e = 0; e < R.fe->get_nelem(); e++) {
    double lo = R.fe->element_begin(e), hi = R.fe->element_end(e);
    std::vector<std::pair<double, double>> pts;
    for (int q = 0; q < NO; q++) { double t = 0.5 + 0.5 * oxx[q]; if (!e) pts.push_back({hi * t * t * t, 0.5 * ow[q] * hi * 3 * t * t}); else pts.push_back({lo + (hi - lo) * t, 0.5 * ow[q] * (hi - lo)}); }
    std::sort(pts.begin(), pts.end());
    pts.push_back({hi, 0});
    for (auto &p : pts) {
      for (int q = 0; q < NI; q++) { double u = (prev + p.first) / 2 + (p.first - prev) / 2 * ix[q], w = (p.first - prev) / 2 * iw[q] * std::sinh(u); leg(Lm, Mm, u, P, Q); Eigen::VectorXd f = pr(R, u, e); for (int L = 0; L <= Lm; L++) for (int m = 0; m <= Mm; m++) { U[0][L * (Mm + 1) + m] += double(w * P[m][L]) * f; U[1][L * (Mm + 1) + m] += double(w * P[m][L]) * std::pow(std::cosh(u), 2) * f; } }
      prev = p.first;
      if (p.second == 0) continue;
      leg(Lm, Mm, p.first, P, Q); Eigen::VectorXd f = pr(R, p.first, e);
      std::vector<int> nz; for (size_t i = 0; i < N2; i++) if (f(i) != 0) nz.push_back(i);
      for (int L = 0; L <= Lm; L++) for (int m = 0; m <= Mm; m++) { size_t i = L * (Mm + 1) + m; double g = p.second * std::sinh(p.first) * (double)Q[m][L]; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { double ga = a ? g * sq(std::cosh(p.first)) : g; for (int z : nz) o.T[a][b][i].row(z) += ga * f(z) * U[b][i].transpose(); } }
    }
  }
  for (size_t i = 0; i < nlm; i++) { M x00 = o.T[0][0][i], x11 = o.T[1][1][i], x01 = o.T[0][1][i], x10 = o.T[1][0][i]; o.T[0][0][i] = x00 + x00.transpose(); o.T[1][1][i] = x11 + x11.transpose(); o.T[0][1][i] = x01 + x10.transpose(); o.T[1][0][i] = o.T[0][1][i].transpose(); }
  return o;
}
// int Y_j* cos^{2c} Y_LM Y_i
static double G2(int c, int lj, int mj, int L, int Mv, int li, int mi) {
  if (!c) return A::G(lj, mj, L, Mv, li, mi);
  if (mj != Mv + mi) return 0;
  static std::map<std::array<int, 6>, double> memo; std::array<int, 6> key{lj, mj, L, Mv, li, mi};
  auto f = memo.find(key); if (f != memo.end()) return f->second;
  double s = 0; for (size_t q = 0; q < A::ax.size(); q++) s += A::aw[q] * sq(A::ax[q]) * A::theta(lj, mj, A::ax[q]) * A::theta(L, Mv, A::ax[q]) * A::theta(li, mi, A::ax[q]);
  return memo[key] = 2 * PI * s;
}
static double fac(int L, int Ma) { double f = 1; for (int p = L - Ma + 1; p <= L + Ma; p++) f /= p; return f; } // (L-M)!/(L+M)!
static void jkref(const Di &a, const Neu &nu, const M &P, M &J, M &K) {
  size_t n = a.r.n(), k = a.l.size(); int Lm = nu.Lm, Mm = nu.Mm;
  M F = M::Zero(n * k, n * k);
  for (size_t i = 0; i < a.pure.size(); i++) for (size_t j = 0; j < a.pure.size(); j++) F(a.pure[i], a.pure[j]) = P(i, j);
  M Jf = M::Zero(n * k, n * k), Kf = Jf; double R5 = 4 * PI * std::pow(a.Rh, 5);
  // channel 0: cosh^0 with -cos^2, channel 1: cosh^2 with 1
  for (int L = 0; L <= Lm; L++) for (int Mv = -std::min(L, Mm); Mv <= std::min(L, Mm); Mv++) {
    int Ma = std::abs(Mv); double pf = R5 * (Mv % 2 ? -1 : 1) * fac(L, Ma);
    Eigen::VectorXd D[2], Jv[2];
    for (int c = 0; c < 2; c++) { M d = M::Zero(n, n); for (size_t x = 0; x < k; x++) for (size_t y = 0; y < k; y++) { double g = (c ? 1 : -1) * G2(!c, a.l[x], a.m[x], L, Mv, a.l[y], a.m[y]); if (std::fabs(g) > 1e-15) d += g * F.block(x * n, y * n, n, n); } D[c] = Eigen::Map<Eigen::VectorXd>(d.data(), d.size()); }
    for (int c = 0; c < 2; c++) Jv[c] = pf * (nu.t(c, 0, L, Ma) * D[0] + nu.t(c, 1, L, Ma) * D[1]);
    for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) for (int c = 0; c < 2; c++) { double g = (c ? 1 : -1) * G2(!c, a.l[j], a.m[j], L, Mv, a.l[i], a.m[i]); if (std::fabs(g) > 1e-15) Jf.block(i * n, j * n, n, n) += g * Eigen::Map<M>(Jv[c].data(), n, n); }
  }
  for (size_t j = 0; j < k; j++) for (size_t kk = 0; kk < k; kk++) for (int L = 0; L <= Lm; L++) for (int Ma = 0; Ma <= std::min(L, Mm); Ma++) {
    M Rb[2][2]; bool any = false; for (auto &r : Rb) for (auto &x : r) x = M::Zero(n, n);
    for (int sg = 0; sg < (Ma ? 2 : 1); sg++) { int Mv = sg ? -Ma : Ma; double pf = R5 * (Mv % 2 ? -1 : 1) * fac(L, Ma);
      for (size_t i = 0; i < k; i++) if (a.m[j] == Mv + a.m[i]) for (size_t l = 0; l < k; l++) if (a.m[kk] == Mv + a.m[l]) for (int c = 0; c < 2; c++) for (int d = 0; d < 2; d++) {
        double g = pf * ((c + d) % 2 ? -1 : 1) * G2(!c, a.l[j], a.m[j], L, Mv, a.l[i], a.m[i]) * G2(!d, a.l[kk], a.m[kk], L, Mv, a.l[l], a.m[l]);
        if (std::fabs(g) > 1e-15) { Rb[c][d] += g * F.block(i * n, l * n, n, n); any = true; } } }
    if (!any) continue;
    for (int c = 0; c < 2; c++) for (int d = 0; d < 2; d++) { const M &T = nu.t(c, d, L, Ma);
      for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { double s = 0; for (size_t z = 0; z < n; z++) for (size_t t = 0; t < n; t++) s += T(z * n + x, t * n + y) * Rb[c][d](z, t); Kf(j * n + x, kk * n + y) -= s; } }
  }
  J = pick(Jf, a.pure, a.pure); K = pick(Kf, a.pure, a.pure);
}
// the expansion of 1/r12 used here, checked against 1/r12 itself
static void selfcheck() {
  for (int it = 0; it < 20; it++) {
    double u1 = H::rr(0.2, 0.8), u2 = u1 + H::rr(0.5, 1), x1 = H::rr(-1, 1), x2 = H::rr(-1, 1), f = H::rr(-3, 3), h = H::rr(0.5, 2), s = 0;
    std::vector<std::vector<long double>> P1, Q1, P2, Q2; int Lm = 40; leg(Lm, Lm, u1, P1, Q1); leg(Lm, Lm, u2, P2, Q2);
    for (int L = 0; L <= Lm; L++) for (int m = -L; m <= L; m++) { int a = std::abs(m); s += 4 * PI / h * (m % 2 ? -1 : 1) * fac(L, a) * (double)(P1[a][L] * Q2[a][L]) * A::theta(L, m, x1) * A::theta(L, m, x2) * std::cos(m * f); }
    auto rho = [&](double u, double x) { return h * std::sinh(u) * std::sqrt(1 - x * x); };
    double z = h * (std::cosh(u1) * x1 - std::cosh(u2) * x2), r1 = rho(u1, x1), r2 = rho(u2, x2), e = 1 / std::sqrt(z * z + r1 * r1 + r2 * r2 - 2 * r1 * r2 * std::cos(f));
    if (std::fabs(s - e) > 1e-6 * e) { fprintf(H::out, "ORACLE self-check failed %.15g %.15g\n", s, e); exit(3); }
  }
}
static void c27(int N) {
  selfcheck();
  for (int it = 0; it < N; it++) H::guard([&] {
    bool sym = it % 4 == 3;
    Di a = mk(it % 3 == 2 ? 2 : 1, it % 3 == 2 ? 2 : 3, true, sym);
    DT &b = *a.b; size_t n = a.r.n(), k = a.l.size(), np = a.pure.size();
    int lm = 0, mm = 0; for (int l : a.l) lm = std::max(lm, l); for (int m : a.m) mm = std::max(mm, std::abs(m));
    M P = rnd(np, np); P = M(P + P.transpose());
    int sp = sym ? 3 : H::ri(0, 2);
    auto chn = [&](size_t i) { return a.pure[i] / n; };
    if (sp == 1 || sp == 2) { M keep(k, k); for (size_t i = 0; i < k; i++) for (size_t j = 0; j <= i; j++) keep(i, j) = keep(j, i) = H::rb() ? 1 : sp == 1 ? 0 : 1e-6; for (size_t i = 0; i < np; i++) for (size_t j = 0; j < np; j++) P(i, j) *= keep(chn(i), chn(j)); }
    if (sym) { // block-diagonal in m and the same for m and -m
      auto mirror = [&](size_t i) { size_t c = chn(i); for (size_t d = 0; d < np; d++) if (a.l[chn(d)] == a.l[c] && a.m[chn(d)] == -a.m[c] && a.pure[d] % n == a.pure[i] % n) return d; return i; };
      M Q = P; for (size_t i = 0; i < np; i++) for (size_t j = 0; j < np; j++) P(i, j) = a.m[chn(i)] == a.m[chn(j)] ? Q(i, j) + Q(mirror(i), mirror(j)) : 0;
    }
    H::ok(H::throws([&] { b.coulomb(P); }) && H::throws([&] { b.exchange(P); }), "tables that were not computed are reported");
    b.compute_tei(H::rb());
    auto w = H::str("density kind %d", sp);
    int Lm = 2 * lm + 2, Mm = 2 * mm;
    Neu nu = neumann(a.r, Lm, Mm);
    M J, K; jkref(a, nu, P, J, K);
    cmp(b.coulomb(P), J, 1e-8, "Coulomb matrix is the two-electron integrals contracted with the density", w);
    cmp(b.exchange(P), K, 1e-8, "exchange matrix is the exchange-ordered integrals contracted with the density", w);
    cmp(1e7 * b.coulomb(M(1e-7 * P)), J, 1e-6, "Coulomb matrix of a scaled density is the scaled Coulomb matrix", w);
    cmp(1e7 * b.exchange(M(1e-7 * P)), K, 1e-6, "exchange matrix of a scaled density is the scaled exchange matrix", w);
    if (sym) { b.set_absm_symmetric(true); H::ok(b.is_absm_symmetric(), "the m symmetry is remembered"); cmp(b.exchange(P), K, 1e-8, "exchange with the m symmetry of the density equals exchange without", w); cmp(b.coulomb(P), J, 1e-8, "Coulomb with the m symmetry of the density equals Coulomb without", w); b.set_absm_symmetric(false); }
    H::ok(H::throws([&] { b.coulomb(M::Zero(np + 1, np + 1)); }) && H::throws([&] { b.exchange(M::Zero(np + 1, np + 1)); }), "densities of the wrong size are refused");
    // in-element kernel, its factors
    size_t e = H::ri(0, a.r.fe->get_nelem() - 1), f, l; a.r.fe->get_idx(e, f, l); size_t ni = l - f + 1;
    size_t ci = H::ri(0, k - 1), cj = H::ri(0, k - 1); int Mv = std::abs(a.m[cj] - a.m[ci]);
    int L = H::ri(std::max(std::abs(a.l[cj] - a.l[ci]) - 2, Mv), a.l[cj] + a.l[ci] + 2);
    auto wl = H::str("element %zu L=%d M=%d", e, L, Mv);
    M W = b.in_element_kernel(e, L, Mv), X(2 * ni * ni, 2 * ni * ni);
    { // restrict: integrals over the element only

      // recompute with both electrons inside the element
      M T0[2][2]; for (auto &r : T0) for (auto &x : r) x = M::Zero(ni * ni, ni * ni);
      Eigen::VectorXd U[2]; U[0] = U[1] = Eigen::VectorXd::Zero(ni * ni);
      std::vector<std::vector<long double>> Pl, Ql;
      gauss(10); auto ix = gx, iw = gw; gauss(44); auto ox = gx, ow = gw; gauss(40);
      double lo = a.r.fe->element_begin(e), hi = a.r.fe->element_end(e), prev = lo;
      std::vector<std::pair<double, double>> pts;
      for (size_t q = 0; q < ox.size(); q++) { double t = 0.5 + 0.5 * ox[q]; if (!e) pts.push_back({hi * t * t * t, 0.5 * ow[q] * hi * 3 * t * t}); else pts.push_back({lo + (hi - lo) * t, 0.5 * ow[q] * (hi - lo)}); }
      std::sort(pts.begin(), pts.end());
      auto pf = [&](double u) { Eigen::VectorXd v = a.r.at(u, 0, e).segment(f, ni); M p = v * v.transpose(); return Eigen::VectorXd(Eigen::Map<Eigen::VectorXd>(p.data(), p.size())); };
      for (auto &p : pts) {
        for (size_t q = 0; q < ix.size(); q++) { double u = (prev + p.first) / 2 + (p.first - prev) / 2 * ix[q], w1 = (p.first - prev) / 2 * iw[q] * std::sinh(u); leg(L, Mv, u, Pl, Ql); Eigen::VectorXd v = pf(u); U[0] += double(w1 * Pl[Mv][L]) * v; U[1] += double(w1 * Pl[Mv][L]) * sq(std::cosh(u)) * v; }
        prev = p.first; leg(L, Mv, p.first, Pl, Ql); Eigen::VectorXd v = pf(p.first);
        double gg = p.second * std::sinh(p.first) * (double)Ql[Mv][L];
        for (int c = 0; c < 2; c++) for (int d = 0; d < 2; d++) T0[c][d] += (c ? gg * sq(std::cosh(p.first)) : gg) * v * U[d].transpose();
      }
      size_t m2 = ni * ni;
      X.block(0, 0, m2, m2) = T0[0][0] + T0[0][0].transpose(); X.block(m2, m2, m2, m2) = T0[1][1] + T0[1][1].transpose();
      X.block(0, m2, m2, m2) = -(T0[0][1] + T0[1][0].transpose()); X.block(m2, 0, m2, m2) = X.block(0, m2, m2, m2).transpose();
    }

    cmp(W, X, 1e-8, "in-element kernel is the double integral over the element", wl);
    auto cd = b.check_cd(e, L, Mv);
    H::ok(cd.first < 1e-9 && cd.second < 1e-6, "factorised kernel reproduces the kernel", wl + H::str(" kernel error %.3g exchange error %.3g", cd.first, cd.second));
  });
}
int main(int argc, char **argv) {
  H::init();
  std::string p = argc > 1 ? argv[1] : "C26";
  A::init(40); gauss(40);
  int s = H::thorough ? 12 : 1;
  if (p == "C26") c26(25 * s); else c27(14 * s);
  return H::finish();
}
