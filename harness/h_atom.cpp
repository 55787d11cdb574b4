// C23 angular couplings, C24 atomic one-electron operators and functions, C25 atomic Coulomb and
// exchange, C28 spherically averaged atoms: against direct quadrature with independent spherical
// harmonics and radial integrals.
#include "angq.h"
#include "general/gaunt.h"
#include "general/spherical_harmonics.h"
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "sadatom/basis.h"
typedef atomic::basis::TwoDBasisT<double> AT;
typedef sadatom::basis::TwoDBasis SA;
// ---------------------------------------------------------------- C23
template <class T> static void table(int N) {
  for (int it = 0; it < N; it++) {
    int L = H::ri(0, 6), l = H::ri(0, 6), lp = H::ri(0, 6), lall = std::max(L, std::max(l, lp));
    int cap = H::rb() ? -1 : H::ri(0, lall + 2);
    H::kase("Gaunt table (%zu-byte scalars) Lmax=%d lmax=%d lpmax=%d mcap=%d", sizeof(T), L, l, lp, cap);
    H::guard([&] {
      gaunt::GauntT<T> g(L, l, lp, cap);
      int mc = cap < 0 ? lall : std::min(cap, lall);
      for (int a = -1; a <= L + 1; a++) for (int b = -1; b <= l + 1; b++) for (int c = -1; c <= lp + 1; c++)
        for (int M = -a - 1; M <= a + 1; M++) for (int m = -b - 1; m <= b + 1; m++) {
          if (sizeof(T) > 8 && H::ri(0, 4)) continue;
          bool in = a >= 0 && a <= L && b >= 0 && b <= l && c >= 0 && c <= lp && std::abs(M) <= a && std::abs(m) <= b;
          auto what = H::str("L=%d M=%d l=%d m=%d lp=%d", a, M, b, m, c);
          if (in && (std::abs(M) > mc || std::abs(m) > mc)) { H::ok(H::throws([&] { g.coeff(a, M, b, m, c); }), "coefficients outside the stored range of m are refused", what); continue; }
          double v = (double)g.coeff(a, M, b, m, c), e = in ? A::G(a, M, b, m, c, M - m) : 0;
          H::near(v, e, 1e-12, "table entry is the integral of Y_L^M* Y_l^m Y_lp^(M-m)", what);
        }
    });
  }
}
static void c23(int N) {
  table<double>(N); table<long double>(std::max(1, N / 10));
  for (int it = 0; it < N; it++) {
    int lm = H::ri(0, 5), lb = lm + 2 + H::ri(0, 3);
    H::kase("couplings in a table of Lmax=lpmax=%d lmax=%d", lb, std::max(lb, 5));
    H::guard([&] {
      gaunt::Gaunt g(lb, std::max(lb, 5), lb);
      for (int k = 0; k < 300; k++) {
        int lj = H::ri(0, lm), mj = H::ri(-lj, lj), li = H::ri(0, lm), mi = H::ri(0, 2) ? mj : H::ri(-li, li);
        if (std::abs(mi) > li) mi = std::max(-li, std::min(li, mi));
        int L = H::ri(0, lb - 2), M = H::ri(0, 3) ? mj - mi : H::ri(-L, L);
        auto what = H::str("lj=%d mj=%d li=%d mi=%d L=%d M=%d", lj, mj, li, mi, L, M);
        auto c = [&](double got, F1 f, const char *n) { H::near(got, A::cpl(lj, mj, f, li, mi), 1e-12, "coupling is the integral of Y* f(cos theta) Y", std::string(n) + " " + what); };
        c(g.cosine_coupling(lj, mj, li, mi), [](double x) { return x; }, "cos");
        c(g.cosine2_coupling(lj, mj, li, mi), [](double x) { return x * x; }, "cos^2");
        c(g.cosine3_coupling(lj, mj, li, mi), [](double x) { return x * x * x; }, "cos^3");
        c(g.cosine4_coupling(lj, mj, li, mi), [](double x) { return x * x * x * x; }, "cos^4");
        c(g.cosine5_coupling(lj, mj, li, mi), [](double x) { return x * x * x * x * x; }, "cos^5");
        c(g.sine2_coupling(lj, mj, li, mi), [](double x) { return 1 - x * x; }, "sin^2");
        c(g.cosine2_sine2_coupling(lj, mj, li, mi), [](double x) { return x * x * (1 - x * x); }, "cos^2 sin^2");
        if (std::abs(M) <= L) {
          double e = 0;
          if (mj == M + mi) for (size_t q = 0; q < A::ax.size(); q++) { double x = A::ax[q]; e += 2 * PI * A::aw[q] * x * x * A::theta(lj, mj, x) * A::theta(L, M, x) * A::theta(li, mi, x); }
          H::near(g.mod_coeff(lj, mj, L, M, li, mi), e, 1e-12, "modified coefficient is the integral of Y_j* cos^2 Y_LM Y_i", what);
          if (mj == M + mi) H::near(gaunt::modified_gaunt_coefficient(lj, mj, L, M, li, mi), e, 1e-12, "modified coefficient is the integral of Y_j* cos^2 Y_LM Y_i", what + " (function)");
          H::near(gaunt::gaunt_coefficient(lj, mj, L, M, li, mi), A::G(lj, mj, L, M, li, mi), 1e-12, "coefficient is the integral of Y_j* Y_LM Y_i", what);
        }
        double x = H::ri(0, 9) ? H::rr(-1, 1) : H::rb() ? 1 : -1, ph = H::rr(-7, 7);
        std::complex<double> y = ::spherical_harmonics(li, mi, x, ph), z = A::Y(li, mi, x, ph);
        H::ok(std::abs(y - z) < 1e-12, "spherical harmonics have the Condon-Shortley phase and unit norm", what + H::str(" cos theta=%.17g phi=%.17g got %.15g%+.15gi expected %.15g%+.15gi", x, ph, y.real(), y.imag(), z.real(), z.imag()));
      }
    });
  }
}

struct Chan { VI l, m; };
static Chan chans(int lmax) {
  Chan c; Eigen::VectorXi a, b;
  int lm = H::ri(0, lmax);
  atomic::basis::angular_basis(lm, H::ri(0, lm), a, b);
  c.l.assign(a.data(), a.data() + a.size()); c.m.assign(b.data(), b.data() + b.size());
  if (H::rb()) for (size_t i = c.l.size() - 1; i > 0; i--) { size_t j = H::ri(0, i); std::swap(c.l[i], c.l[j]); std::swap(c.m[i], c.m[j]); }
  if (H::ri(0, 2) == 0 && c.l.size() > 2) { size_t k = H::ri(1, c.l.size() - 1); c.l.resize(k); c.m.resize(k); }
  return c;
}
struct At { Rad r; Chan c; std::unique_ptr<AT> b; std::shared_ptr<const PolynomialBasisT<double>> poly; int nq; int Z, Zl, Zr; double Rh; modelpotential::nuclear_model_t mod; double size; bool zd; };
static At mkat(int lmax, int maxel, bool nuc) {
  At a; a.c = chans(lmax);
  int id = IDS[H::ri(0, 4)], nn = H::ri(id == 3 ? 4 : id == 4 ? 3 : 2, id == 3 || id == 4 ? 5 : id == 5 ? 3 : 2), ne = H::ri(id == 4 && nn == 3 ? 1 : 1, maxel);
  a.zd = H::rb() && (ne > 1 || nn > 3 || id >= 8);
  double x = 0; a.r.b.push_back(0);
  for (int i = 0; i < ne; i++) { x += H::rr(0.3, 2.0); a.r.b.push_back(x); }
  Vec<double> bv(a.r.b.size()); std::string ms;
  for (size_t i = 0; i < a.r.b.size(); i++) { bv(i) = a.r.b[i]; ms += H::str(" %.17g", bv(i)); }
  a.poly.reset(get_basis_T<double>(id, nn));
  a.r.fe.reset(new FE(a.poly, bv, true, false, true, a.zd));
  a.nq = 30; a.Z = H::ri(0, 9); a.Zl = a.Zr = 0; a.Rh = 0; a.mod = modelpotential::POINT_NUCLEUS; a.size = 0;
  if (nuc && H::rb()) { if (H::rb()) { a.Zl = H::ri(0, 5); a.Zr = H::ri(0, 5); a.Rh = a.r.b[H::ri(1, ne)]; } else { a.mod = (modelpotential::nuclear_model_t)H::ri(1, 3); a.size = H::rr(0.02, 0.6); a.Z = H::ri(1, 9); } }
  a.b.reset(new AT(a.Z, a.mod, a.size, a.poly, a.zd, a.nq, bv, ev(a.c.l), ev(a.c.m), a.Zl, a.Zr, a.Rh));
  H::kase("atomic basis l=%s m=%s family=%d nodes=%d zeroder=%d mesh=[%s ] Z=%d Zl=%d Zr=%d Rhalf=%.17g nuclear model=%d size=%.17g", vis(a.c.l).c_str(), vis(a.c.m).c_str(), id, nn, a.zd, ms.c_str(), a.Z, a.Zl, a.Zr, a.Rh, a.mod, a.size);
  return a;
}
typedef std::function<M(int, int, int, int)> Blk; // radial block of channels (li,mi),(lj,mj)
static M full(const At &a, Blk f) {
  size_t n = a.r.n(), k = a.c.l.size();
  M O(n * k, n * k);
  for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) O.block(i * n, j * n, n, n) = f(a.c.l[i], a.c.m[i], a.c.l[j], a.c.m[j]);
  return O;
}
// ---------------------------------------------------------------- C24
static void c24(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    At a = mkat(3, 4, true);
    const Rad &R = a.r; const AT &b = *a.b;
    size_t n = R.n(), k = a.c.l.size();
    if (!n) return;
    M Z0 = M::Zero(n, n), S = R.integral([](double) { return 1.0; }, 0, 0);
    auto diag = [&](const M &X) { return full(a, [&](int li, int mi, int lj, int mj) { return M(li == lj && mi == mj ? X : Z0); }); };
    H::ok(b.Nbf() == n * k && b.Nrad() == n && b.Nang() == k, "one function per channel and radial function");
    cmp(b.overlap(), diag(S), 1e-11, "overlap is the radial overlap in every channel and zero between channels");
    M T0 = R.integral([](double) { return 0.5; }, 1, 1), Tl = R.integral([](double r) { return 0.5 / (r * r); }, 0, 0);
    cmp(b.kinetic(), full(a, [&](int li, int mi, int lj, int mj) { return M(li == lj && mi == mj ? M(T0 + double(li * (li + 1)) * Tl) : Z0); }), 1e-10, "kinetic energy is 1/2 B'B' + l(l+1)/2 BB/r^2 in every channel");
    M V;
    double tolV = 1e-9;
    if (a.mod == modelpotential::POINT_NUCLEUS) {
      M Vc = R.integral([&](double r) { return -a.Z / r; }, 0, 0);
      std::vector<M> vl;
      int Lm = 0; for (int l : a.c.l) Lm = std::max(Lm, 2 * l);
      for (int L = 0; L <= Lm; L++) vl.push_back(R.integral([&](double r) { return a.Rh > 0 ? std::pow(std::min(r, a.Rh), L) / std::pow(std::max(r, a.Rh), L + 1) : 0; }, 0, 0));
      V = full(a, [&](int li, int mi, int lj, int mj) {
        M X = li == lj && mi == mj ? Vc : Z0;
        if (mi == mj) for (int L = 0; L <= Lm; L++) // Legendre expansion of 1/|r - (0,0,+-Rhalf)|
          X -= (a.Zr + (L % 2 ? -1 : 1) * a.Zl) * A::cpl(li, mi, [&](double x) { return A::theta(L, 0, x) * std::sqrt(4 * PI / (2 * L + 1)); }, lj, mj) * vl[L];
        return X; });
    } else {
      std::unique_ptr<modelpotential::ModelPotentialT<double>> p(modelpotential::get_nuclear_model<double>(a.mod, a.Z, a.size));
      std::vector<double> brk; for (auto x : p->breakpoints(0.0, R.b.back())) brk.push_back(x);
      V = diag(R.integral([&](double r) { return p->V(r); }, 0, 0, brk));
      tolV = 1e-6;
    }
    cmp(b.nuclear(), V, tolV, "nuclear attraction is -Z/r - Zl/|r+Rh z| - Zr/|r-Rh z|, or the finite nucleus");
    M R1 = R.integral([](double r) { return r; }, 0, 0), R2 = R.integral([](double r) { return r * r; }, 0, 0);
    cmp(b.dipole_z(), full(a, [&](int li, int mi, int lj, int mj) { return M(A::cpl(li, mi, [](double x) { return x; }, lj, mj) * R1); }), 1e-11, "dipole operator is r cos(theta)", "", std::max(1e-3, R1.cwiseAbs().maxCoeff()));
    cmp(b.quadrupole_zz(), full(a, [&](int li, int mi, int lj, int mj) { return M(A::cpl(li, mi, [](double x) { return (3 * x * x - 1) / 2; }, lj, mj) * R2); }), 1e-11, "quadrupole operator is r^2 P_2(cos theta)", "", std::max(1e-3, R2.cwiseAbs().maxCoeff()));
    double Bf = H::rr(-2, 2);
    cmp(b.Bz_field(Bf), full(a, [&](int li, int mi, int lj, int mj) { return M(Bf * Bf / 8 * A::cpl(li, mi, [](double x) { return 1 - x * x; }, lj, mj) * R2 + (li == lj && mi == mj ? M(-0.5 * Bf * mj * S) : Z0)); }), 1e-11, "magnetic field operator is -B m/2 + B^2 r^2 sin^2(theta)/8", H::str("B=%.17g", Bf));
    {
      double d = H::rr(0.1, 3), h = H::rr(0.2, 2);
      modelpotential::GSZAtom g(std::max(1, a.Z), d, h);
      cmp(b.model_potential(&g), diag(R.integral([&](double r) { return g.V(r); }, 0, 0)), 1e-8, "model potential is the same radial matrix in every channel");
      RB rb(*R.fe, a.nq);
      double r0 = H::rr(0.2, 1.5), v = H::rr(0.1, 2); int pw = H::ri(1, 4), ic = H::ri(0, 1);
      M C = M::Zero(n, n);
      if (ic) for (size_t e = 0; e < R.fe->get_nelem(); e++) { size_t f, l; R.fe->get_idx(e, f, l); C.block(f, f, l - f + 1, l - f + 1) += rb.confinement_potential(e, pw, r0, ic, v, 0.0); }
      cmp(b.confinement(pw, r0, ic, v, 0.0), diag(C), 1e-11, "confinement is the same radial matrix in every channel, zero when switched off", H::str("kind=%d", ic));
    }
    { // overlap with another basis
      At c = mkat(3, 3, false);
      size_t nc = c.r.n(), kc = c.c.l.size();
      if (nc) {
        M X = M::Zero(n, nc);
        std::vector<double> p; double end = std::min(R.b.back(), c.r.b.back());
        for (double x : R.b) if (x <= end) p.push_back(x);
        for (double x : c.r.b) if (x <= end) p.push_back(x);
        std::sort(p.begin(), p.end());
        for (size_t i = 0; i + 1 < p.size(); i++) {
          double m = (p[i] + p[i + 1]) / 2, h = (p[i + 1] - p[i]) / 2; if (h <= 0) continue;
          size_t e = R.el(m), f = c.r.el(m);
          for (size_t q = 0; q < gx.size(); q++) { double r = m + h * gx[q]; X += h * gw[q] * R.at(r, 0, e) * c.r.at(r, 0, f).transpose(); }
        }
        M O = M::Zero(n * k, nc * kc);
        for (size_t i = 0; i < k; i++) for (size_t j = 0; j < kc; j++) if (a.c.l[i] == c.c.l[j] && a.c.m[i] == c.c.m[j]) O.block(i * n, j * nc, n, nc) = X;
        cmp(b.overlap(*c.b), O, 1e-10, "overlap between two bases joins equal channels only", H::str("first basis l=%s m=%s", vis(a.c.l).c_str(), vis(a.c.m).c_str()));
      }
    }
    // functions and derivatives at quadrature points
    size_t e = H::ri(0, R.fe->get_nelem() - 1), f, l; R.fe->get_idx(e, f, l); size_t ni = l - f + 1;
    double x = H::rr(-0.999, 0.999), ph = H::rr(-4, 4), st = std::sqrt(1 - x * x);
    Vec<double> rr = b.get_r(e);
    Eigen::MatrixXcd bf = b.eval_bf(e, x, ph), dr, dt, dp, lf = b.eval_lf(e, x, ph);
    b.eval_df(e, x, ph, dr, dt, dp);
    auto idx = b.bf_list(e);
    H::ok(idx.size() == ni * k && (size_t)bf.cols() == ni * k && (size_t)lf.cols() == ni * k && (size_t)dr.cols() == ni * k && (size_t)dt.cols() == ni * k && (size_t)dp.cols() == ni * k && bf.rows() == rr.size(), "functions of an element come in the order of its index list");
    if ((size_t)bf.cols() == ni * k && idx.size() == ni * k) for (Eigen::Index q = 0; q < rr.size(); q += 7) {
      double r = rr(q);
      Eigen::VectorXd B0 = R.at(r, 0, e), B1 = R.at(r, 1, e), B2 = R.at(r, 2, e);
      double sc = 1 + std::max(B0.cwiseAbs().maxCoeff() / (r * r * r), std::max(B1.cwiseAbs().maxCoeff() / (r * r), B2.cwiseAbs().maxCoeff() / r));
      for (size_t c = 0; c < ni * k; c++) {
        size_t ch = idx[c] / n, k0 = idx[c] % n; int ll = a.c.l[ch], mm = a.c.m[ch];
        std::complex<double> y = A::Y(ll, mm, x, ph), ey = std::polar(1.0, mm * ph);
        auto w = H::str("element %zu r=%.17g cos=%.17g phi=%.17g l=%d m=%d", e, r, x, ph, ll, mm);
        auto zz = [&](std::complex<double> g, std::complex<double> ex, const char *cl) { H::ok(std::abs(g - ex) <= 1e-9 * sc, cl, w + H::str(" got %.12g%+.12gi expected %.12g%+.12gi", g.real(), g.imag(), ex.real(), ex.imag())); };
        zz(bf(q, c), B0(k0) / r * y, "basis function is B(r)/r Y_lm");
        zz(dr(q, c), (B1(k0) / r - B0(k0) / (r * r)) * y, "radial derivative of a basis function");
        zz(dt(q, c), B0(k0) / r * A::dtheta(ll, mm, x) * ey, "polar derivative of a basis function");
        zz(dp(q, c), B0(k0) / r * std::complex<double>(0, mm) * y, "azimuthal derivative of a basis function");
        zz(lf(q, c), (B2(k0) / r - ll * (ll + 1) * B0(k0) / (r * r * r)) * y, "laplacian of a basis function");
      }
    }
    (void)st;
  });
}

// ---------------------------------------------------------------- C25
static const double TJ = 2e-7;
static M blockof(const M &P, size_t i, size_t j, size_t n) { return P.block(i * n, j * n, n, n); }
static void c25(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    At a = mkat(it % 3 ? 2 : 1, 3, false);
    AT &b = *a.b; size_t n = a.r.n(), k = a.c.l.size();
    if (!n) return;
    int lm = 0; for (int l : a.c.l) lm = std::max(lm, l);
    M P = rnd(n * k, n * k); P = M(P + P.transpose());
    int sp = H::ri(0, 2); // sparse densities: whole blocks missing, tiny blocks
    if (sp) for (size_t i = 0; i < k; i++) for (size_t j = 0; j <= i; j++) if (H::rb()) { double s = sp == 1 ? 0 : 1e-6; P.block(i * n, j * n, n, n) *= s; if (i != j) P.block(j * n, i * n, n, n) *= s; }
    H::ok(H::throws([&] { b.coulomb(P); }) && H::throws([&] { b.exchange(P); }) && H::throws([&] { b.rs_exchange(P); }), "tables that were not computed are reported");
    int kind = H::ri(0, 5); // 0-3 bare, 4 Yukawa, 5 erfc
    double lam = H::rr(0.2, 2);
    auto ker = [&](int L) -> Ker {
      if (kind == 4) return [=](double s, double g) { return lam * il(L, lam * s) * kl(L, lam * g) * (2 * L + 1); };
      if (kind == 5) return [=](double s, double g) { return lam * erfc_expn::Phi<double>(L, lam * g, lam * s); };
      return [=](double s, double g) { return std::pow(s, L) / std::pow(g, L + 1); };
    };
    std::vector<Two> I; for (int L = 0; L <= 2 * lm; L++) I.push_back(ints(*a.r.fe, ker(L)));
    M J = M::Zero(n * k, n * k), K = J;
    for (int L = 0; L <= 2 * lm; L++) for (int m = -L; m <= L; m++) {
      M D = M::Zero(n, n), j1, k1;
      for (size_t c = 0; c < k; c++) for (size_t d = 0; d < k; d++) D += A::G(a.c.l[c], a.c.m[c], L, m, a.c.l[d], a.c.m[d]) * blockof(P, c, d, n);
      jk(*a.r.fe, I[L], D, j1, k1);
      for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) J.block(i * n, j * n, n, n) += 4 * PI / (2 * L + 1) * A::G(a.c.l[j], a.c.m[j], L, m, a.c.l[i], a.c.m[i]) * j1;
    }
    for (size_t i = 0; i < k; i++) for (size_t l = 0; l < k; l++) for (int L = 0; L <= 2 * lm; L++) {
      M D = M::Zero(n, n), j1, k1; bool any = false;
      for (size_t j = 0; j < k; j++) for (size_t c = 0; c < k; c++) for (int m = -L; m <= L; m++) {
        double g = A::G(a.c.l[i], a.c.m[i], L, m, a.c.l[j], a.c.m[j]) * A::G(a.c.l[l], a.c.m[l], L, m, a.c.l[c], a.c.m[c]);
        if (std::fabs(g) > 1e-14) { D += 4 * PI / (2 * L + 1) * g * blockof(P, j, c, n); any = true; }
      }
      if (!any) continue;
      jk(*a.r.fe, I[L], D, j1, k1);
      K.block(i * n, l * n, n, n) -= k1;
    }
    double sj = J.cwiseAbs().maxCoeff(), sk = K.cwiseAbs().maxCoeff();
    auto w = H::str("sparsity=%d lambda=%.17g", sp, lam);
    if (kind == 4) {
      b.compute_yukawa(lam);
      cmp(b.rs_exchange(P), K, TJ, "Yukawa-screened exchange is -sum_kl P_kl (ik|lj) exp(-lambda r12)/r12", w, std::max(1e-3, sk));
      H::ok(H::throws([&] { b.coulomb(P); }), "tables that were not computed are reported");
    } else if (kind == 5) {
      b.compute_erfc(lam);
      cmp(b.rs_exchange(P), K, 3e-3, "range-separated exchange is -sum_kl P_kl (ik|lj) erfc(mu r12)/r12", w, std::max(1e-3, sk));
    } else {
      b.compute_tei(H::rb());
      cmp(b.coulomb(P), J, TJ, "Coulomb matrix is sum_kl P_kl (ij|kl)", w, std::max(1e-3, sj));
      cmp(b.exchange(P), K, TJ, "exchange matrix is -sum_kl P_kl (ik|lj)", w, std::max(1e-3, sk));
      cmp(1e7 * b.coulomb(M(1e-7 * P)), J, TJ, "Coulomb matrix of a scaled density is the scaled Coulomb matrix", w, std::max(1e-3, sj));
      cmp(1e7 * b.exchange(M(1e-7 * P)), K, std::max(TJ, 1e-6), "exchange matrix of a scaled density is the scaled exchange matrix", w, std::max(1e-3, sk));
      if (H::rb()) { // switching a screened kernel on must leave the bare operators alone
        if (H::rb()) b.compute_yukawa(lam); else b.compute_erfc(lam);
        cmp(b.coulomb(P), J, TJ, "Coulomb matrix is sum_kl P_kl (ij|kl)", w + " after screened tables", std::max(1e-3, sj));
        cmp(b.exchange(P), K, TJ, "exchange matrix is -sum_kl P_kl (ik|lj)", w + " after screened tables", std::max(1e-3, sk));
      }
      if (it % 3 == 0) {
        double tol = 1e-9;
        auto Bf = b.radial_df_factors(tol);
        H::ok((int)Bf.size() == 2 * lm + 1, "density-fitting factors for every multipole");
        for (int L = 0; L <= 2 * lm && L < (int)Bf.size(); L++) {
          M D = rnd(n, n), j1, k1, j2 = M::Zero(n, n); D = M(D + D.transpose());
          jk(*a.r.fe, I[L], D, j1, k1);
          for (auto &x : Bf[L]) j2 += (x.cwiseProduct(D)).sum() * x;
          cmp(j2, j1, 1e-6, "density-fitting factors reproduce the radial integrals", H::str("L=%d", L), std::max(1.0, j1.cwiseAbs().maxCoeff()));
        }
      }
    }
  });
  // spherically averaged atoms
  for (int it = 0; it < N; it++) H::guard([&] {
    At a = mkat(0, 3, false);
    int lmax = H::ri(0, 3); bool zr = H::rb(), zd = zr && a.zd;
    Vec<double> bv(a.r.b.size()); for (size_t i = 0; i < a.r.b.size(); i++) bv(i) = a.r.b[i];
    Rad R; R.b = a.r.b; R.fe.reset(new FE(a.poly, bv, true, false, zr, zd));
    SA b(a.Z, modelpotential::POINT_NUCLEUS, 0.0, a.poly, zd, a.nq, bv, lmax, zr);
    size_t n = R.n(); if (!n) return;
    int kind = H::ri(0, 4); double lam = H::rr(0.2, 2);
    std::string w = H::str("spherically averaged lmax=%d zeroright=%d kind=%d lambda=%.17g", lmax, zr, kind, lam);
    auto ker = [&](int L) -> Ker {
      if (kind == 3) return [=](double s, double g) { return lam * il(L, lam * s) * kl(L, lam * g) * (2 * L + 1); };
      if (kind == 4) return [=](double s, double g) { return lam * erfc_expn::Phi<double>(L, lam * g, lam * s); };
      return [=](double s, double g) { return std::pow(s, L) / std::pow(g, L + 1); };
    };
    helfem::Cube P(lmax + 1), K(lmax + 1, M::Zero(n, n)), G;
    for (auto &p : P) { p = rnd(n, n); p = M(p + p.transpose()); if (!H::ri(0, 3)) p.setZero(); }
    H::ok(H::throws([&] { b.coulomb(P[0]); }) && H::throws([&] { b.exchange(P); }) && H::throws([&] { b.rs_exchange(P); }), "tables that were not computed are reported", w);
    for (int L = 0; L <= 2 * lmax; L++) {
      Two I = ints(*R.fe, ker(L));
      M j1, k1;
      if (L == 0 && kind < 3) {
        b.compute_tei();
        jk(*R.fe, I, P[0], j1, k1);
        cmp(b.coulomb(P[0]), 4 * PI * j1, TJ, "spherical Coulomb matrix is 4 pi sum_kl P_kl (ij|kl)_0", w);
        Eigen::VectorXd c = rnd(n, 1);
        jk(*R.fe, I, c * c.transpose(), j1, k1);
        H::near(b.slater_F(0, c), c.dot(j1 * c), 1e-7, "Slater integral F^k", w);
      } else if (kind < 3 && L <= 3) {
        Eigen::VectorXd c = rnd(n, 1);
        jk(*R.fe, I, c * c.transpose(), j1, k1);
        H::near(b.slater_F(L, c), c.dot(j1 * c), 1e-7, "Slater integral F^k", w);
      }
      for (int lo = 0; lo <= lmax; lo++) for (int li = 0; li <= lmax; li++) {
        double t = 0;
        for (int mo = -lo; mo <= lo; mo++) for (int mi = -li; mi <= li; mi++) t += std::pow(A::G(lo, mo, L, mo - mi, li, mi), 2);
        if (t < 1e-14) continue;
        jk(*R.fe, I, P[li], j1, k1);
        K[lo] -= 4 * PI / (2 * L + 1) * t / (2 * lo + 1) * k1;
      }
    }
    if (kind == 3) b.compute_yukawa(lam); else if (kind == 4) b.compute_erfc(lam);
    G = kind < 3 ? b.exchange(P) : b.rs_exchange(P);
    H::ok((int)G.size() == lmax + 1, "one exchange matrix per angular momentum", w);
    double sk = 1e-3; for (auto &x : K) sk = std::max(sk, x.cwiseAbs().maxCoeff());
    for (int l = 0; l <= lmax && l < (int)G.size(); l++) cmp(G[l], K[l], kind == 4 ? 3e-3 : TJ, "spherical exchange is the average of the m-resolved exchange over the shell", w + H::str(" l=%d", l), sk);
    if (kind < 3) {
      helfem::Cube Q(P); Q.pop_back();
      H::ok(H::throws([&] { b.exchange(Q); }), "densities of a different number of shells are rejected", w);
      Q = P; Q[0] = M::Zero(n + 1, n + 1);
      H::ok(H::throws([&] { b.exchange(Q); }), "densities of a different size are rejected", w);
      Eigen::VectorXd c = rnd(n + 1, 1);
      H::ok(H::throws([&] { b.slater_F(0, c); }), "orbitals of a different size are rejected", w);
    }
  });
}

// ---------------------------------------------------------------- C28
static void c28(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    At a = mkat(0, 4, true);
    a.Zl = a.Zr = 0;
    int lmax = H::ri(0, 3); bool zr = H::rb(), zd = zr && a.zd;
    Vec<double> bv(a.r.b.size()); for (size_t i = 0; i < a.r.b.size(); i++) bv(i) = a.r.b[i];
    Rad R; R.b = a.r.b; R.fe.reset(new FE(a.poly, bv, true, false, zr, zd));
    SA b(a.Z, a.mod, a.size, a.poly, zd, a.nq, bv, lmax, zr);
    size_t n = R.n(); if (!n) return;
    std::string w = H::str("spherically averaged lmax=%d zeroright=%d zeroder=%d", lmax, zr, zd);
    cmp(b.overlap(), R.integral([](double) { return 1.0; }, 0, 0), 1e-11, "overlap", w);
    cmp(b.kinetic(), R.integral([](double) { return 0.5; }, 1, 1), 1e-10, "radial kinetic energy", w);
    cmp(b.kinetic_l(), R.integral([](double r) { return 0.5 / (r * r); }, 0, 0), 1e-10, "centrifugal term without its l(l+1)", w);
    {
      std::unique_ptr<modelpotential::ModelPotentialT<double>> p(modelpotential::get_nuclear_model<double>(a.mod, a.Z, a.size));
      std::vector<double> brk; for (auto x : p->breakpoints(0.0, R.b.back())) brk.push_back(x);
      cmp(b.nuclear(), R.integral([&](double r) { return p->V(r); }, 0, 0, brk), a.mod ? 1e-6 : 1e-9, "nuclear attraction", w);
    }
    for (auto &x : b.Rmatrices()) { int p = x.first; cmp(x.second, R.integral([&](double r) { return std::pow(r, p); }, 0, 0), 1e-9, "moment matrices of the stated power", w + H::str(" power %d", p)); }
    { double k = H::rr(0.1, 2), br = H::rr(0.1, 1) * R.b.back(); F1 f = [&](double r) { return r < br ? k * r : k * (2 * br - r); };
      cmp(b.potential(f, {br}), R.integral(f, 0, 0, {br}), 1e-8, "matrix of a given potential, split where asked", w); }
    // density
    int no = H::ri(1, 3);
    M C = rnd(n, no); M P = C * C.transpose();
    bool un = H::ri(0, 3) == 0; if (un) { P = rnd(n, n); P = M(P + P.transpose()); }
    size_t ne = R.fe->get_nelem();
    Vec<double> r = b.radii(), wt = b.quadrature_weights(), rho = b.electron_density(P), r2 = b.electron_density(P, true), g = b.electron_density_gradient(P), lp = b.electron_density_laplacian(P), scr = b.coulomb_screening(P);
    M O = b.orbitals(C), dO = b.orbitals_derivative(C), ddO = b.orbitals_second_derivative(C);
    helfem::Cube Pl(lmax + 1); M Pt = M::Zero(n, n), Pw = Pt;
    for (int l = 0; l <= lmax; l++) { M q = rnd(n, 1); Pl[l] = q * q.transpose(); Pt += Pl[l]; Pw += double(l * (l + 1)) * Pl[l]; }
    Vec<double> tau = b.kinetic_energy_density(Pl);
    size_t np = r.size(), npe = (np - 1) / ne;
    H::ok(np == ne * npe + 1 && (size_t)wt.size() == np && (size_t)rho.size() == np && (size_t)g.size() == np && (size_t)lp.size() == np && (size_t)scr.size() == np && (size_t)O.rows() == np && (size_t)tau.size() == np && r(0) == 0 && wt(0) == 0, "radial tables list the nucleus and the points of every element", w);
    if (np != ne * npe + 1) return;
    Eigen::VectorXd b1 = R.at(0, 1, 0), b2 = R.at(0, 2, 0);
    H::near(rho(0), b1.dot(P * b1), 1e-8, "density at the nucleus", w);
    H::near(b.nuclear_density(P), b1.dot(P * b1) / (4 * PI), 1e-8, "density at the nucleus", w);
    H::near(b.nuclear_density_gradient(P), b1.dot(P * b2) / (4 * PI), 1e-7, "density slope at the nucleus", w);
    for (int o = 0; o < no; o++) H::near(O(0, o), b1.dot(C.col(o)), 1e-8, "orbital at the nucleus", w);
    double tot = 0;
    M S = R.integral([](double) { return 1.0; }, 0, 0);
    for (size_t i = 1; i < np; i++) {
      size_t e = (i - 1) / npe; double x = r(i);
      tot += wt(i) * x * x * rho(i);
      if ((i * 7) % 5) continue;
      Eigen::VectorXd B0 = R.at(x, 0, e), B1 = R.at(x, 1, e), B2 = R.at(x, 2, e);
      Eigen::VectorXd f = B0 / x, d = B1 / x - B0 / (x * x), h = B2 / x - 2 * B1 / (x * x) + 2 * B0 / (x * x * x);
      auto wp = w + H::str(" r=%.17g", x);
      double s1 = P.cwiseAbs().maxCoeff(), s = 1 + s1 * (f.squaredNorm() + d.squaredNorm() + h.squaredNorm()) * n;
      H::near(rho(i), f.dot(P * f), 1e-10, "density on the radial grid", wp, s);
      H::near(r2(i), x * x * f.dot(P * f), 1e-10, "density times r^2", wp, s);
      H::near(g(i), 2 * f.dot(P * d), 1e-10, "radial derivative of the density", wp, s);
      H::near(lp(i), 2 * d.dot(P * d) + 2 * f.dot(P * h) + 4 * f.dot(P * d) / x, 1e-9, "laplacian of the density", wp, s / x);
      H::near(tau(i), 0.5 * d.dot(Pt * d) + 0.5 * f.dot(Pw * f) / (x * x), 1e-9, "kinetic energy density", wp, (1 + Pw.cwiseAbs().maxCoeff() + Pt.cwiseAbs().maxCoeff()) * (f.squaredNorm() / x / x + d.squaredNorm()) * n);
      for (int o = 0; o < no; o++) {
        H::near(O(i, o), f.dot(C.col(o)), 1e-10, "orbital on the radial grid", wp, s);
        H::near(dO(i, o), d.dot(C.col(o)), 1e-10, "orbital derivative", wp, s);
        H::near(ddO(i, o), h.dot(C.col(o)), 1e-9, "orbital second derivative", wp, s);
      }
    }
    H::near(tot, (P * S).trace(), 1e-9, "density integrates to the trace of density and overlap", w, 1 + P.cwiseAbs().maxCoeff() * n);
    // screening function: r times the potential of the radial density
    for (size_t i = 1; i < np; i += 1 + np / 12) {
      double x = r(i);
      M in = R.integral([&](double s) { return 1 / std::max(s, x); }, 0, 0, {x});
      H::near(scr(i), x * (P * in).trace(), 1e-7, "screening is r times the electrostatic potential of the density", w + H::str(" r=%.17g", x), 1 + P.cwiseAbs().maxCoeff() * n);
    }
    if (un) return;
    // radii of a decaying density c(r) = P of one orbital
    auto dens = [&](double x, bool sq) { size_t e = R.el(x); Eigen::VectorXd f = R.at(x, 0, e); double v = f.dot(P * f); return sq ? v : v / (x * x); };
    double N0 = (P * S).trace();
    { double eps = H::rr(0.001, 0.9) * N0, rad = b.electron_count_radius(P, eps), out = 0;
      M in = R.integral([&](double s) { return s > rad ? 1.0 : 0.0; }, 0, 0, {rad});
      out = (P * in).trace();
      H::near(out, eps, 1e-6, "the count radius encloses all but eps electrons", w + H::str(" eps=%.17g radius=%.17g", eps, rad), N0 + 1); }
    { bool sq = H::rb(); double top = 0, xt = 0; (void)xt;
      bool thrown = false; double rad = 0;
      try { rad = b.electron_density_maximum_radius(P, sq); } catch (const std::exception &) { thrown = true; }
      if (!thrown) { for (size_t i = 1; i < np; i++) top = std::max(top, sq ? r2(i) : rho(i));
        if (rad > 1e-4) H::ok(dens(rad, sq) >= top * (1 - 1e-9), "the radius of maximal density is a maximum over the grid", w + H::str(" radius=%.17g density %.17g grid maximum %.17g r^2 weight %d", rad, dens(rad, sq), top, sq)); } }
  });
  // van der Waals radius: outermost crossing of the threshold, monotone tails
  for (int it = 0; it < N; it++) H::guard([&] {
    int ne = H::ri(2, 5), nn = H::ri(6, 10);
    std::vector<double> bd{0}; for (int i = 0; i < ne; i++) bd.push_back(bd.back() + H::rr(0.8, 2.5));
    Vec<double> bv(bd.size()); std::string ms; for (size_t i = 0; i < bd.size(); i++) { bv(i) = bd[i]; ms += H::str(" %.17g", bd[i]); }
    std::shared_ptr<const PolynomialBasisT<double>> poly(get_basis_T<double>(4, nn));
    Rad R; R.b = bd; R.fe.reset(new FE(poly, bv, true, false, true, false));
    SA b(1, modelpotential::POINT_NUCLEUS, 0.0, poly, false, 40, bv, 0, true);
    size_t n = R.n(); double al = H::rr(0.5, 1.5);
    // interpolate r exp(-al r) at the nodes by least squares
    M S = R.integral([](double) { return 1.0; }, 0, 0); Eigen::VectorXd rhs = Eigen::VectorXd::Zero(n);
    for (size_t e = 0; e < R.fe->get_nelem(); e++) { double m = (bd[e] + bd[e + 1]) / 2, h = (bd[e + 1] - bd[e]) / 2; for (size_t q = 0; q < gx.size(); q++) { double x = m + h * gx[q]; rhs += h * gw[q] * x * std::exp(-al * x) * 2 * std::pow(al, 1.5) * R.at(x, 0, e); } }
    Eigen::VectorXd c = S.ldlt().solve(rhs); M P = c * c.transpose();
    double x0 = H::rr(0.15, 0.8) * bd.back();
    auto dens = [&](double x) { double v = R.at(x, 0, R.el(x)).dot(c) / x; return v * v / (4 * PI); };
    double thr = dens(x0);
    double prev = dens(1e-3);
    for (double x = 2e-3; x < bd.back(); x += 1e-3) { double v = dens(x); if (v > prev && x < x0 + 1e-2) return; if (x > x0 + 1e-3 && v > thr * (1 - 1e-9)) return; prev = v; } // one crossing only
    H::kase("van der Waals radius alpha=%.17g nodes=%d mesh=[%s ] threshold=%.17g", al, nn, ms.c_str(), thr);
    H::near(b.vdw_radius(P, thr), x0, 1e-6, "the density equals the threshold at the van der Waals radius");
    H::near(b.vdw_radius(P, 1e3), 0, 0, "no radius when the density never reaches the threshold");
  });
}
int main(int, char **v) {
  H::init(); A::init(48); gauss(32);
  std::string w = v[1];
  int k = H::thorough ? 8 : 1;
  if (w == "C23") c23(12 * k);
  if (w == "C24") c24(20 * k);
  if (w == "C25") { gauss(24); c25(10 * k); }
  if (w == "C28") c28(25 * k);
  return H::finish();
}
