// C22: exchange-correlation quadrature. The Fock matrix must be the derivative of the reported
// energy, the electron count and kinetic energy must be the traces with S and T, and the
// polarized and restricted paths, and the three geometries, must agree.
#include "h.h"
#include <PolynomialBasis.h>
#include <Eigen/Eigenvalues>
#include <xc.h>
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "atomic/dftgrid.h"
#include "diatomic/basis.h"
#include "diatomic/dftgrid.h"
#include "diatomic/dftgrid_purem.h"
#include "sadatom/basis.h"
#include "sadatom/dftgrid.h"
using namespace helfem;
typedef helfem::Matrix M;
typedef helfem::Vector Vd;
typedef std::vector<int> VI;
typedef atomic::basis::TwoDBasisT<double> AT;
typedef diatomic::basis::TwoDBasis DI;
typedef sadatom::basis::TwoDBasis SA;

struct Fn { int x, c; const char *name; bool lapl, tau; };
static const Fn FNS[] = {{1, 0, "LDA exchange", false, false}, {0, 12, "PW92 correlation only", false, false}, {1, 7, "SVWN", false, false},
                         {101, 130, "PBE", false, false}, {1, 130, "LDA exchange + PBE correlation", false, false},
                         {202, 231, "TPSS", false, true}, {101, 231, "PBE exchange + TPSS correlation", false, true},
                         {101, 627, "PBE exchange + second-order gradient expansion", true, true}, {101, 72, "PBE exchange + Colle-Salvetti", true, true},
                         {0, 627, "second-order gradient expansion", true, true},
                         {101, 12, "PBE exchange + PW92 correlation", false, false}, {202, 12, "TPSS exchange + PW92 correlation", false, true},
                         {202, 130, "TPSS exchange + PBE correlation", false, true}};
static const int NF = sizeof(FNS) / sizeof(FNS[0]);
static Vd bounds(int nel) {
  Vd b(nel + 1);
  b(0) = 0;
  for (int i = 1; i <= nel; i++) b(i) = b(i - 1) + H::rr(0.5, 1.5);
  return b;
}
static Eigen::VectorXi ev(const VI &v) { Eigen::VectorXi r(v.size()); for (size_t i = 0; i < v.size(); i++) r(i) = v[i]; return r; }
static std::string vis(const VI &v) { std::string s; for (int i : v) s += H::str("%d,", i); return s; }
// S^-1/2 R R^T S^-1/2 with full-rank R: a density that is positive everywhere
static M isqrt(const M &S) { Eigen::SelfAdjointEigenSolver<M> es(S); return es.operatorInverseSqrt(); }
static M rnd(Eigen::Index n) { M r(n, n); for (Eigen::Index i = 0; i < n; i++) for (Eigen::Index j = 0; j < n; j++) r(i, j) = H::rr(-1, 1); return r; }
static M dens(const M &Sh) { Eigen::Index n = Sh.rows(); M r = rnd(n); return Sh * (r * r.transpose() / n + 0.5 * M::Identity(n, n)) * Sh; }
static double mx(const M &a) { return a.size() ? a.cwiseAbs().maxCoeff() : 0; }

// one energy/Fock evaluation of either kind: densities and Fock matrices as lists of blocks
typedef std::vector<M> Bl;
struct Res { double E, N, K; Bl F, G; };
typedef std::function<Res(const Fn &, const Bl &)> Rst;
typedef std::function<Res(const Fn &, const Bl &, const Bl &, bool)> Pol;
static Bl lin(const Bl &a, double t, const Bl &d) { Bl r(a); for (size_t i = 0; i < r.size(); i++) r[i] += t * d[i]; return r; }
static double tr(const Bl &F, const Bl &D) { double s = 0; for (size_t i = 0; i < D.size(); i++) s += (F[i].transpose() * D[i]).trace(); return s; }
static double scal(const Bl &F, const Bl &D) { double s = 0; for (size_t i = 0; i < D.size(); i++) s += F[i].cwiseAbs().cwiseProduct(D[i].cwiseAbs()).sum(); return s; }
static void same(const char *w, const Bl &a, const Bl &b, double tol, const char *f) {
  for (size_t i = 0; i < b.size(); i++) {
    if (!H::ok(i < a.size() && a[i].rows() == b[i].rows() && a[i].cols() == b[i].cols(), "the Fock matrix has the size of the density matrix", f)) return;
    double e = mx(a[i] - b[i]);
    H::ok(e <= tol * std::max(1.0, mx(b[i])), w, H::str("%s: difference %.3g", f, e));
  }
}
// fourth-order central difference of the energy
static double fd(const std::function<double(double)> &E, double h) { return (8 * (E(h) - E(-h)) - (E(2 * h) - E(-2 * h))) / (12 * h); }
// the analytic derivative against the finite difference; where the energy is too strongly curved
// for the step (densities close to zero), a smaller step decides, and the two differences bound the error
static void deriv(const std::function<double(double)> &E, double h, double want, double tol, const char *w, const char *f) {
  double a = fd(E, h);
  if (std::fabs(a - want) > tol) {
    double b = fd(E, h / 8), c = fd(E, h / 64);
    tol = std::max(tol, 2 * std::fabs(b - c));
    if (std::fabs(c - want) < std::fabs(b - want)) b = c;
    if (std::fabs(b - want) < std::fabs(a - want)) a = b;
    tol = std::min(tol, 1e-3 * std::max(std::fabs(want), 1e-3));
  }
  H::near(a, want, tol, w, f);
}

static void consistency(const Fn &f, const Rst &R, const Pol &P, const Bl &Pa, const Bl &Pb, const Bl &D, double N, double NK, bool lapl_ok) {
  if (f.lapl && !lapl_ok) {
    H::ok(H::throws([&] { R(f, Pa); }) && H::throws([&] { P(f, Pa, Pb, true); }), "an unsupported functional is refused", f.name);
    return;
  }
  double h = 2e-3;
  Res r = R(f, Pa);
  H::ok(std::isfinite(r.E), "the energy is finite", f.name);
  double T = tr(r.F, D), sc = scal(r.F, D);
  deriv([&](double t) { return R(f, lin(Pa, t, D)).E; }, h, T, 2e-6 * std::max(sc, 1e-3), "restricted Fock matrix is the derivative of the energy", f.name);
  for (auto &m : r.F) H::ok(mx(m - m.transpose()) <= 1e-9 * std::max(1.0, mx(m)), "the Fock matrix is symmetric", f.name);
  if (N > 0) H::near(r.N, N, 1e-8 * N, "the electron count is tr PS", f.name);
  if (f.tau && NK > 0) H::near(r.K, NK, 1e-7 * NK, "the kinetic energy is tr PT", f.name);
  // polarized
  Bl Ha(Pa), Hb(Pb);
  Res p = P(f, Pa, Pb, true);
  sc = scal(p.F, D);
  deriv([&](double t) { return P(f, lin(Pa, t, D), Pb, true).E; }, h, tr(p.F, D), 2e-6 * std::max(sc, 1e-3), "alpha Fock matrix is the derivative of the energy", f.name);
  sc = scal(p.G, D);
  deriv([&](double t) { return P(f, Pa, lin(Pb, t, D), true).E; }, h, tr(p.G, D), 2e-6 * std::max(sc, 1e-3), "beta Fock matrix is the derivative of the energy", f.name);
  // exchanging the spins exchanges the matrices
  Res q = P(f, Pb, Pa, true);
  H::near(q.E, p.E, 1e-10 * std::max(1.0, std::fabs(p.E)), "exchanging the spins keeps the energy", f.name);
  same("exchanging the spins exchanges the Fock matrices", q.F, p.G, 1e-8, f.name);
  same("exchanging the spins exchanges the Fock matrices", q.G, p.F, 1e-8, f.name);
  // no beta electrons wanted
  Res b = P(f, Pa, Pb, false);
  H::near(b.E, p.E, 1e-10 * std::max(1.0, std::fabs(p.E)), "leaving out the beta matrix keeps the energy", f.name);
  same("leaving out the beta matrix keeps the alpha matrix", b.F, p.F, 1e-9, f.name);
  for (auto &m : b.G) H::ok(mx(m) == 0, "the beta matrix left out is zero", f.name);
  // a closed shell is the same either way
  Bl half(Pa);
  for (auto &m : half) m *= 0.5;
  Res c = P(f, half, half, true);
  H::near(c.E, r.E, 1e-9 * std::max(1.0, std::fabs(r.E)), "a closed shell has the restricted energy", f.name);
  H::near(c.N, r.N, 1e-10 * std::max(1.0, r.N), "a closed shell has the restricted electron count", f.name);
  if (f.tau && NK > 0) H::near(c.K, r.K, 1e-10 * std::max(1.0, r.K), "a closed shell has the restricted kinetic energy", f.name);
  same("a closed shell has the restricted Fock matrix", c.F, r.F, 1e-7, f.name);
  same("a closed shell has the restricted Fock matrix", c.G, r.F, 1e-7, f.name);
}

static const double THR = 1e-12;
static const int NQ = 60;
static void channels(VI &l, VI &m, int nmax, bool sym) {
  l.clear(); m.clear();
  int n = H::ri(1, nmax);
  for (int k = 0; k < 40 && (int)l.size() < n; k++) {
    int a = H::ri(0, 2), b = H::ri(-a, a);
    bool have = false;
    for (size_t i = 0; i < l.size(); i++) have |= l[i] == a && m[i] == b;
    if (have) continue;
    l.push_back(a); m.push_back(b);
    if (sym && b) { l.push_back(a); m.push_back(-b); }
  }
  // keep the spherical channel: the density must not vanish anywhere
  bool s = false;
  for (int x : l) s |= x == 0;
  if (!s) { l.insert(l.begin(), 0); m.insert(m.begin(), 0); }
}
static void atomic_grid(int n) {
  for (int it = 0; it < n; it++) {
    VI l, m; channels(l, m, 3, false);
    int nel = H::ri(1, 3), nn = H::ri(2, 4), id = H::rb() ? 4 : 5;
    if (id == 5) nn = 2;
    if (id == 4) nn = std::max(nn, 3);
    const Fn &f = FNS[it % NF];
    H::kase("atomic l=%s m=%s primbas=%d nodes=%d elements=%d functional %s", vis(l).c_str(), vis(m).c_str(), id, nn, nel, f.name);
    H::guard([&] {
      std::shared_ptr<const polynomial_basis::PolynomialBasis> poly(polynomial_basis::get_basis(id, nn));
      AT b(H::ri(1, 10), modelpotential::POINT_NUCLEUS, 0.0, poly, id == 5, NQ, bounds(nel), ev(l), ev(m), 0, 0, 0.0);
      M S = b.overlap(), Tk = b.kinetic(), Sh = isqrt(S);
      int lang = 22, mang = 9;
      atomic::dftgrid::DFTGrid g(&b, lang, mang);
      Vd none;
      Rst R = [&](const Fn &f, const Bl &P) { Res r; r.F.resize(1); g.eval_Fxc(f.x, none, f.c, none, P[0], r.F[0], r.E, r.N, r.K, THR); return r; };
      Pol U = [&](const Fn &f, const Bl &P, const Bl &Q, bool beta) { Res r; r.F.resize(1); r.G.resize(1); g.eval_Fxc(f.x, none, f.c, none, P[0], Q[0], r.F[0], r.G[0], r.E, r.N, r.K, beta, THR); return r; };
      Bl P{dens(Sh)}, Q{dens(Sh)}, D{Sh * (rnd(S.rows()) + M::Identity(S.rows(), S.rows())) * Sh * 0.3};
      D[0] = (D[0] + D[0].transpose()).eval() / 2 * (1.0 / S.rows());
      consistency(f, R, U, P, Q, D, (P[0] * S).trace(), (P[0] * Tk).trace(), true);
    });
  }
}
static void sadatom_grid(int n) {
  for (int it = 0; it < n; it++) {
    int lmax = H::ri(0, 3), nel = H::ri(1, 3), nn = H::ri(2, 4), id = H::rb() ? 4 : 5;
    if (id == 5) nn = 2;
    if (id == 4) nn = std::max(nn, 3);
    const Fn &f = FNS[it % NF];
    H::kase("sadatom lmax=%d primbas=%d nodes=%d elements=%d functional %s", lmax, id, nn, nel, f.name);
    H::guard([&] {
      std::shared_ptr<const polynomial_basis::PolynomialBasis> poly(polynomial_basis::get_basis(id, nn));
      SA b(H::ri(1, 10), modelpotential::POINT_NUCLEUS, 0.0, poly, id == 5, NQ, bounds(nel), lmax);
      M S = b.overlap(), Sh = isqrt(S);
      sadatom::dftgrid::DFTGrid g(&b);
      Vd none;
      Rst R = [&](const Fn &f, const Bl &P) { Res r; r.K = 0; g.eval_Fxc(f.x, none, f.c, none, P, r.F, r.E, r.N, THR); return r; };
      Pol U = [&](const Fn &f, const Bl &P, const Bl &Q, bool beta) { Res r; r.K = 0; g.eval_Fxc(f.x, none, f.c, none, P, Q, r.F, r.G, r.E, r.N, beta, THR); return r; };
      Bl P, Q, D;
      double N = 0;
      for (int k = 0; k <= lmax; k++) {
        P.push_back(dens(Sh) / (4 * M_PI)); Q.push_back(dens(Sh) / (4 * M_PI));
        M d = Sh * (rnd(S.rows()) + M::Identity(S.rows(), S.rows())) * Sh * 0.02 / S.rows();
        D.push_back((d + d.transpose()) / 2);
        N += 4 * M_PI * (P[k] * S).trace();
      }
      consistency(f, R, U, P, Q, D, N, 0, true);
    });
  }
}
static void diatomic_grid(int n) {
  for (int it = 0; it < n; it++) {
    VI l, m; channels(l, m, 3, H::rb());
    if (it % NF == 3 || it % NF == 5) l = VI{0, 1, 2}, m = VI{0, 1, -1};   // opposite m, different l
    if (it % NF == 11) l = VI{0, 1, 1, 2}, m = VI{0, 1, -1, 0};
    int nel = H::ri(1, 2), nn = 3, id = 4;
    const Fn &f = FNS[it % NF];
    H::kase("diatomic l=%s m=%s nodes=%d elements=%d functional %s", vis(l).c_str(), vis(m).c_str(), nn, nel, f.name);
    H::guard([&] {
      std::shared_ptr<const polynomial_basis::PolynomialBasis> poly(polynomial_basis::get_basis(id, nn));
      DI b(H::ri(1, 10), H::ri(1, 10), H::rr(0.5, 2), poly, NQ, bounds(nel), ev(l), ev(m), false);
      M S = b.overlap(), Tk = b.kinetic(), Sh = isqrt(S);
      Vd none;
      int lang = 22, mang = 9;
      diatomic::dftgrid::DFTGrid g(&b, lang, mang);
      Rst R = [&](const Fn &f, const Bl &P) { Res r; r.F.resize(1); g.eval_Fxc(f.x, none, f.c, none, P[0], r.F[0], r.E, r.N, r.K, THR); return r; };
      Pol U = [&](const Fn &f, const Bl &P, const Bl &Q, bool beta) { Res r; r.F.resize(1); r.G.resize(1); g.eval_Fxc(f.x, none, f.c, none, P[0], Q[0], r.F[0], r.G[0], r.E, r.N, r.K, beta, THR); return r; };
      Bl P{dens(Sh)}, Q{dens(Sh)}, D{Sh * (rnd(S.rows()) + M::Identity(S.rows(), S.rows())) * Sh * 0.3};
      D[0] = (D[0] + D[0].transpose()).eval() / 2 * (1.0 / S.rows());
      consistency(f, R, U, P, Q, D, (P[0] * S).trace(), (P[0] * Tk).trace(), false);
      // pure-m densities: block diagonal in m
      auto diag = [&](const M &A) {
        M r = M::Zero(A.rows(), A.cols());
        std::vector<int> of(A.rows(), 99);
        for (int mm = -4; mm <= 4; mm++) for (auto i : b.m_indices(mm)) of[i] = mm;
        for (Eigen::Index i = 0; i < A.rows(); i++) for (Eigen::Index j = 0; j < A.cols(); j++) if (of[i] == of[j]) r(i, j) = A(i, j);
        return r;
      };
      diatomic::dftgrid_purem::PureMDFTGrid pg(&b, lang);
      Rst PR = [&](const Fn &f, const Bl &P) { Res r; r.F.resize(1); pg.eval_Fxc(f.x, none, f.c, none, P[0], r.F[0], r.E, r.N, r.K, THR); return r; };
      Pol PU = [&](const Fn &f, const Bl &P, const Bl &Q, bool beta) { Res r; r.F.resize(1); r.G.resize(1); pg.eval_Fxc(f.x, none, f.c, none, P[0], Q[0], r.F[0], r.G[0], r.E, r.N, r.K, beta, THR); return r; };
      Bl P2{diag(P[0])}, Q2{diag(Q[0])}, D2{diag(D[0])};
      consistency(f, PR, PU, P2, Q2, D2, (P2[0] * S).trace(), (P2[0] * Tk).trace(), true);
      if (!f.lapl) {
        Res a = R(f, P2), c = PR(f, P2);
        H::near(c.E, a.E, 1e-9 * std::max(1.0, std::fabs(a.E)), "the pure-m grid agrees with the full grid", f.name);
        same("the pure-m grid agrees with the full grid", Bl{diag(a.F[0])}, c.F, 1e-8, f.name);
        Res au = U(f, P2, Q2, true), cu = PU(f, P2, Q2, true);
        H::near(cu.E, au.E, 1e-9 * std::max(1.0, std::fabs(au.E)), "the pure-m grid agrees with the full grid (unrestricted)", f.name);
        same("the pure-m grid agrees with the full grid (unrestricted)", Bl{diag(au.F[0]), diag(au.G[0])}, Bl{cu.F[0], cu.G[0]}, 1e-8, f.name);
      }
      // m and -m equally occupied: sharing their density must not change anything
      bool pm = true;
      for (size_t i = 0; i < l.size(); i++) {
        bool have = false;
        for (size_t j = 0; j < l.size(); j++) have |= l[j] == l[i] && m[j] == -m[i];
        pm &= have;
      }
      if (pm && !(f.lapl && f.c == 72)) {
        auto avg = [&](M A) {
          for (int mm = 1; mm <= 4; mm++) {
            auto p = b.m_indices(mm), q = b.m_indices(-mm);
            // same l order on both sides?
            VI lp, lq;
            for (size_t i = 0; i < l.size(); i++) { if (m[i] == mm) lp.push_back(l[i]); if (m[i] == -mm) lq.push_back(l[i]); }
            if (lp != lq) return M(0, 0);
            for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < p.size(); j++) A(p[i], p[j]) = A(q[i], q[j]) = (A(p[i], p[j]) + A(q[i], q[j])) / 2;
          }
          return A;
        };
        Bl A{avg(P2[0])}, C{avg(Q2[0])};
        if (A[0].size()) {
          Res r0 = PR(f, A), u0 = PU(f, A, C, true);
          b.set_absm_symmetric(true);
          Res r1 = PR(f, A), u1 = PU(f, A, C, true);
          b.set_absm_symmetric(false);
          H::near(r1.E, r0.E, 1e-10 * std::max(1.0, std::fabs(r0.E)), "sharing the density of m and -m keeps the energy", f.name);
          H::near(r1.N, r0.N, 1e-10 * std::max(1.0, std::fabs(r0.N)), "sharing the density of m and -m keeps the electron count", f.name);
          H::near(u1.E, u0.E, 1e-10 * std::max(1.0, std::fabs(u0.E)), "sharing the density of m and -m keeps the unrestricted energy", f.name);
          same("sharing the density of m and -m keeps the Fock matrix", r0.F, r1.F, 1e-9, f.name);
          same("sharing the density of m and -m keeps the Fock matrices", Bl{u0.F[0], u0.G[0]}, Bl{u1.F[0], u1.G[0]}, 1e-9, f.name);
        }
      }
    });
  }
}
// the worker on its own: energy-only evaluation, and a functional of the laplacian without tau
// (newer libxc releases declare such functionals; here the tau part is switched off by hand)
struct AW : atomic::dftgrid::DFTGridWorker {
  AW(const AT *b, int l, int m) : DFTGridWorker(b, l, m) {}
  void no_tau() { do_mgga_t = false; }
};
struct SW : sadatom::dftgrid::DFTGridWorker {
  SW(const SA *b) : DFTGridWorker(b) {}
  void no_tau() { do_mgga_t = false; }
};
template <class W> static void energy_only(W &w, const Fn &f) {
  Vd none;
  w.init_xc();
  if (f.x > 0) w.compute_xc(f.x, none, THR);
  if (f.c > 0) w.compute_xc(f.c, none, THR);
  double E = w.eval_Exc();
  w.init_xc();
  if (f.x > 0) w.compute_xc(f.x, none, THR, false);
  if (f.c > 0) w.compute_xc(f.c, none, THR, false);
  H::near(w.eval_Exc(), E, 1e-12 * std::max(1.0, std::fabs(E)), "leaving out the potential keeps the energy", f.name);
}
static void workers(int n) {
  for (int it = 0; it < n; it++) {
    VI l, m; channels(l, m, 3, false);
    int nel = H::ri(1, 2), nn = 3, lmax = H::ri(0, 2);
    const Fn &f = FNS[it % NF];
    H::kase("workers l=%s m=%s lmax=%d nodes=%d elements=%d functional %s", vis(l).c_str(), vis(m).c_str(), lmax, nn, nel, f.name);
    H::guard([&] {
      std::shared_ptr<const polynomial_basis::PolynomialBasis> poly(polynomial_basis::get_basis(4, nn));
      Vd bv(bounds(nel)), none;
      AT b(3, modelpotential::POINT_NUCLEUS, 0.0, poly, false, NQ, bv, ev(l), ev(m), 0, 0, 0.0);
      M Sh = isqrt(b.overlap()), P = dens(Sh), Z = M::Zero(P.rows(), P.rows());
      AW w(&b, 8, 5);
      w.check_grad_tau_lapl(f.x, f.c);
      SA sb(3, modelpotential::POINT_NUCLEUS, 0.0, poly, false, NQ, bv, lmax);
      M S2 = isqrt(sb.overlap());
      Bl SP, SZ;
      for (int k = 0; k <= lmax; k++) { SP.push_back(dens(S2) / (4 * M_PI)); SZ.push_back(M::Zero(S2.rows(), S2.rows())); }
      Bl Sh2(SP);
      for (auto &x : Sh2) x *= 0.5;
      SW sw(&sb);
      sw.check_grad_tau_lapl(f.x, f.c);
      int iel = H::ri(0, nel - 1);
      w.compute_bf(iel); sw.compute_bf(iel);
      M A = P / 2;
      w.update_density(A, A); energy_only(w, f);
      w.update_density(P); energy_only(w, f);
      sw.update_density(Sh2, Sh2); energy_only(sw, f);
      sw.update_density(SP); energy_only(sw, f);
      if (!f.lapl) return;
      for (int beta = 0; beta <= 1; beta++) {
        M R = Z, Ua = Z, Ub = Z;
        auto xc = [&](auto &w) { w.init_xc(); if (f.x > 0) w.compute_xc(f.x, none, THR); if (f.c > 0) w.compute_xc(f.c, none, THR); w.no_tau(); };
        w.update_density(P); xc(w); w.eval_Fxc(R);
        w.update_density(A, A); xc(w); w.eval_Fxc(Ua, Ub, beta);
        same("a laplacian functional without tau: closed shell has the restricted Fock matrix", Bl{Ua}, Bl{R}, 1e-7, f.name);
        same("a laplacian functional without tau: closed shell has the restricted Fock matrix", Bl{Ub}, Bl{beta ? R : Z}, 1e-7, f.name);
        Bl r(SZ), a(SZ), c(SZ);
        sw.update_density(SP); xc(sw); sw.eval_Fxc(r);
        sw.update_density(Sh2, Sh2); xc(sw); sw.eval_Fxc(a, c, beta);
        same("a laplacian functional without tau: closed shell has the restricted Fock matrix", a, r, 1e-7, f.name);
        same("a laplacian functional without tau: closed shell has the restricted Fock matrix", c, beta ? r : SZ, 1e-7, f.name);
      }
    });
  }
}
int main() {
  H::init();
  int k = H::thorough ? 8 : 1;
  sadatom_grid(40 * k);
  workers(30 * k);
  atomic_grid(20 * k);
  diatomic_grid(20 * k);
  return H::finish();
}
