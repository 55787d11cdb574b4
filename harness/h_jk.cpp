// C12, C20: Coulomb/exchange assembly and contracted bases against an independent two-level
// Gauss-Legendre quadrature of the two-electron integrals.
#include "h.h"
#include "twoe.h"

static void c12(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    Case c = make(4);
    const FE &fe = *c.fe; const RB &rb = *c.rb;
    size_t n = fe.get_nbf(), ne = fe.get_nelem();
    M P = rnd(n, n), S = P + P.transpose();
    int L = H::ri(0, 5);
    bool yuk = H::rb();
    double lam = H::rr(0.2, 1.5);
    std::string es = H::str("L=%d %s%.17g", L, yuk ? "screened " : "bare ", yuk ? lam : 0);
    Ker g = [&](double a, double b) { return yuk ? il(L, lam * a) * kl(L, lam * b) : std::pow(a / b, L) / b; };
    Two t = ints(fe, g);
    M J, Kx, Js, Ks;
    jk(fe, t, P, J, Kx); jk(fe, t, S, Js, Ks);
    M j1 = yuk ? B::assemble_J_FE_one_multipole_yukawa<double>(rb, L, lam, P) : B::assemble_J_FE_one_multipole<double>(rb, L, P);
    M k1 = yuk ? B::assemble_K_FE_one_multipole_yukawa<double>(rb, L, lam, P) : B::assemble_K_FE_one_multipole<double>(rb, L, P);
    const double tol = 2e-8;
    cmp(j1, J, tol, "Coulomb element (i,j) is sum_kl P(k,l) (ij|kl)", es);
    cmp(k1, Kx, tol, "exchange element (i,j) is sum_kl P(k,l) (ik|jl)", es);
    M js = yuk ? B::assemble_J_FE_one_multipole_yukawa<double>(rb, L, lam, S) : B::assemble_J_FE_one_multipole<double>(rb, L, S);
    M ks = yuk ? B::assemble_K_FE_one_multipole_yukawa<double>(rb, L, lam, S) : B::assemble_K_FE_one_multipole<double>(rb, L, S);
    cmp(js, Js, tol, "Coulomb element (i,j) is sum_kl P(k,l) (ij|kl)", es + " symmetric density");
    cmp(ks, Ks, tol, "exchange element (i,j) is sum_kl P(k,l) (ik|jl)", es + " symmetric density");
    cmp(js, js.transpose(), 1e-11, "Coulomb matrix is symmetric", es);
    cmp(ks, ks.transpose(), 1e-11, "exchange matrix of a symmetric density is symmetric", es);
    for (size_t e = 0; e < ne; e++) {
      // (ij|kl) inside one element, pairs unfolded with the first index fastest
      M G = t.G[e][e];
      cmp(yuk ? rb.yukawa_integral(L, lam, e) : rb.twoe_integral(L, e), G, tol, "in-element two-electron table is the double integral over the element", es + H::str(" element %zu", e));
      M C = yuk ? rb.yukawa_integral_cholesky(L, lam, e, 1e-13) : rb.twoe_integral_cholesky(L, e, 1e-13);
      cmp(C * C.transpose(), yuk ? rb.yukawa_integral(L, lam, e) : rb.twoe_integral(L, e), 1e-7, "Cholesky factors multiply to the in-element table", es, std::max(1.0, G.cwiseAbs().maxCoeff()));
    }
    // cached tables for every multipole up to NL-1, then assembly from the caches
    int NL = L + 1 + H::ri(0, 1);
    std::vector<M> sm, bg, tei, ktei;
    B::compute_disjoint_radial_integrals<double>(rb, NL, sm, bg, yuk, lam);
    B::compute_in_element_tei<double>(rb, NL, tei, yuk, lam);
    B::compute_in_element_ktei_from_tei<double>(rb, NL, tei, ktei);
    auto as = [&](size_t e) -> const M & { return sm[L * ne + e]; };
    auto ab = [&](size_t e) -> const M & { return bg[L * ne + e]; };
    auto at = [&](size_t e) -> const M & { return tei[ne * ne * L + e * ne + e]; };
    auto ak = [&](size_t e) -> const M & { return ktei[ne * ne * L + e * ne + e]; };
    cmp(B::assemble_J_FE_one_multipole_cached<double>(rb, as, ab, at, P), J, tol, "Coulomb matrix from cached tables", es);
    cmp(B::assemble_K_FE_one_multipole_cached<double>(rb, as, ab, ak, P), Kx, tol, "exchange matrix from cached tables", es);
    std::vector<M> ch(ne);
    for (size_t e = 0; e < ne; e++) ch[e] = yuk ? rb.yukawa_integral_cholesky(L, lam, e, 1e-13) : rb.twoe_integral_cholesky(L, e, 1e-13);
    auto ac = [&](size_t e) -> const M & { return ch[e]; };
    double sc = std::max(1.0, J.cwiseAbs().maxCoeff()), sk = std::max(1.0, Kx.cwiseAbs().maxCoeff());
    cmp(B::assemble_J_FE_one_multipole_cached_chol<double>(rb, as, ab, ac, P), J, 1e-6, "Coulomb matrix from factored tables", es, sc);
    cmp(B::assemble_K_FE_one_multipole_cached_chol<double>(rb, as, ab, ac, P), Kx, 1e-6, "exchange matrix from factored tables", es, sk);
  });
  // the element quadratures themselves, for rules with and without end points
  for (int it = 0; it < 2 * N; it++) H::guard([&] {
    Case c = make(3);
    const FE &fe = *c.fe;
    size_t e = H::ri(0, (int)fe.get_nelem() - 1);
    double a = fe.element_begin(e), b = fe.element_end(e);
    std::shared_ptr<const PolynomialBasisT<double>> poly = fe.get_basis(e);
    bool lob = H::rb(), yuk = H::rb();
    int n = H::ri(14, 30), L = H::ri(0, 4);
    double lam = H::rr(0.2, 1.5);
    Vec<double> x(n), w(n);
    if (lob) lobatto::lobatto_compute<double>(n, x, w);
    else { gauss(n); for (int q = 0; q < n; q++) { x(q) = gx[n - 1 - q]; w(q) = gw[n - 1 - q]; } }
    gauss(32);
    std::string es = H::str("element %zu rule=%s points=%d L=%d %s%.17g", e, lob ? "Lobatto" : "Legendre", n, L, yuk ? "screened " : "bare ", yuk ? lam : 0);
    Ker g = [&](double s, double t) { return yuk ? il(L, lam * s) * kl(L, lam * t) : std::pow(s / t, L) / t; };
    auto inner = [&](double to, const std::function<double(double)> &k, double from, M &row) {
      std::vector<double> r, v;
      rule(from, to, r, v);
      for (size_t t = 0; t < r.size(); t++) v[t] *= k(r[t]);
      row = (pairs(bf(fe, e, r)).transpose() * Eigen::Map<Vec<double>>(v.data(), v.size())).transpose();
    };
    M I = yuk ? quadrature::yukawa_inner_integral<double>(a, b, x, w, poly, L, lam) : quadrature::twoe_inner_integral<double>(a, b, x, w, poly, L);
    M X(n, I.cols()), V(n, I.cols()), row;
    for (int q = 0; q < n; q++) {
      double r = (a + b) / 2 + (b - a) / 2 * x(q);
      if (r == a) { X.row(q).setZero(); V.row(q).setZero(); continue; }
      inner(r, [&](double s) { return g(s, r); }, a, row);
      X.row(q) = row;
      inner(r, [&](double) { return 1 / r; }, a, row);
      V.row(q) = row;
      if (r < b) { inner(b, [&](double s) { return 1 / s; }, r, row); V.row(q) += row; }
    }
    const double tol = 1e-7;
    for (int q = 0; q < n; q++) cmp(I.row(q), X.row(q), tol, "inner integral up to each quadrature point", es + H::str(" point %d", q));
    if (!(lob && e == 0)) {
      M W = quadrature::spherical_potential<double>(a, b, x, w, poly);
      int q0 = lob ? 1 : 0;
      for (int q = q0; q < n; q++) cmp(W.row(q), V.row(q), tol, "in-element potential is the inner part over r plus the outer part", es + H::str(" point %d", q));
    }
    M T = yuk ? quadrature::yukawa_integral<double>(a, b, x, w, poly, L, lam) : quadrature::twoe_integral<double>(a, b, x, w, poly, L);
    M F(n, I.cols()), Z = M::Zero(I.cols(), I.cols());
    std::vector<double> r;
    for (int q = 0; q < n; q++) r.push_back((a + b) / 2 + (b - a) / 2 * x(q));
    M Pe = pairs(bf(fe, e, r));
    for (int q = 0; q < n; q++) Z += w(q) * (b - a) / 2 * Pe.row(q).transpose() * X.row(q);
    cmp(T, Z + Z.transpose(), tol, "in-element table is the outer quadrature of the inner integrals, both orders added", es);
    Vec<double> y = x.head(n - 1);
    H::ok(H::throws([&] { yuk ? quadrature::yukawa_integral<double>(a, b, y, w, poly, L, lam) : quadrature::twoe_integral<double>(a, b, y, w, poly, L); }), "points and weights of different number are rejected");
  });
  for (int it = 0; it < N / 6; it++) H::guard([&] {
    Case c = make(3);
    const FE &fe = *c.fe;
    RB rb(fe, 24);
    size_t n = fe.get_nbf(), ne = fe.get_nelem();
    int NL = H::ri(1, 3), L = H::ri(0, NL - 1);
    double mu = H::rr(0.3, 1.2);
    std::string es = H::str("L=%d range-separated %.17g", L, mu);
    Two t = ints(fe, [&](double a, double b) { return erfc_expn::Phi<double>(L, mu * b, mu * a); });
    M P = rnd(n, n), J, Kx;
    jk(fe, t, P, J, Kx);
    double sc = 0;
    for (auto &x : t.G) for (auto &y : x) sc = std::max(sc, y.cwiseAbs().maxCoeff());
    for (size_t e = 0; e < ne; e++) for (size_t f = 0; f < ne; f++)
      cmp(rb.erfc_integral(L, mu, e, f), t.G[e][f], e == f ? 2e-3 : 1e-6, "range-separated table is the double integral over the pair of elements", es + H::str(" elements %zu %zu", e, f), sc);
    std::vector<M> rs;
    B::compute_erfc_ktei<double>(rb, NL, mu, rs);
    auto ak = [&](size_t e, size_t f) -> const M & { return rs[ne * ne * L + e * ne + f]; };
    cmp(B::assemble_K_FE_one_multipole_cached_pairwise<double>(rb, ak, P), Kx, 5e-3, "range-separated exchange element (i,j) is sum_kl P(k,l) (ik|jl)", es, std::max(1.0, Kx.cwiseAbs().maxCoeff()));
  });
}

static void c20(int N) {
  typedef B::NAORadialBasis NAO;
  for (int it = 0; it < N; it++) H::guard([&] {
    Case c = make(3);
    std::shared_ptr<const B::RadialBasis> u = c.rb;
    const RB &rb = *c.rb;
    int n = rb.Nbf(), na = H::ri(1, 5), nb = H::ri(1, 4);
    M C = rnd(n, na), D = rnd(n, nb);
    if (H::ri(0, 4) == 0) C.col(na - 1).setZero();
    NAO a(u, C), b(u, D);
    H::ok((int)a.Nbf() == na && a.coeffs() == C, "one contracted function per column, coefficients kept");
    H::ok(&a.underlying() == u.get(), "the underlying basis is the given one");
    cmp(a.overlap(), C.transpose() * rb.overlap() * C, 1e-11, "overlap is C^T S C");
    cmp(a.kinetic(), C.transpose() * rb.kinetic() * C, 1e-11, "kinetic is C^T T C");
    cmp(a.kinetic_l(), C.transpose() * rb.kinetic_l() * C, 1e-11, "kinetic_l is C^T T_l C");
    cmp(a.nuclear(), C.transpose() * rb.nuclear() * C, 1e-11, "nuclear is C^T V C");
    M co = rnd(na, H::ri(1, 4));
    double r = H::rr(0.01, c.b.back() * 0.999);
    M full = C * co;
    cmp(a.eval_orbs(co, r), rb.eval_orbs(full, r), 1e-11, "orbital values are those of C C_orb", H::str("r=%.17g", r), 1);
    // contraction of a contraction is a contraction
    std::shared_ptr<const B::RadialBasis> ua(new NAO(u, C));
    M E = rnd(na, H::ri(1, 3));
    NAO aa(ua, E);
    cmp(aa.overlap(), E.transpose() * C.transpose() * rb.overlap() * C * E, 1e-11, "contraction of a contraction composes");
    M x = rnd(nb, nb);
    int k = H::ri(0, 4); double lam = H::rr(0.2, 1.5);
    M Pf = D * x * D.transpose();
    std::string es = H::str("k=%d lambda=%.17g", k, lam);
    cmp(a.coulomb_radial(k, b, x), C.transpose() * B::assemble_J_FE_one_multipole<double>(rb, k, Pf) * C, 1e-10, "Coulomb is C^T J(D P D^T) C", es);
    cmp(a.exchange_radial(k, b, x), C.transpose() * B::assemble_K_FE_one_multipole<double>(rb, k, Pf) * C, 1e-10, "exchange is C^T K(D P D^T) C", es);
    cmp(a.coulomb_radial_yukawa(k, lam, b, x), C.transpose() * B::assemble_J_FE_one_multipole_yukawa<double>(rb, k, lam, Pf) * C, 1e-10, "screened Coulomb is C^T J(D P D^T) C", es);
    cmp(a.exchange_radial_yukawa(k, lam, b, x), C.transpose() * B::assemble_K_FE_one_multipole_yukawa<double>(rb, k, lam, Pf) * C, 1e-10, "screened exchange is C^T K(D P D^T) C", es);
    M y = rnd(na, na), Pa = C * y * C.transpose();
    cmp(a.coulomb_radial(k, a, y), C.transpose() * B::assemble_J_FE_one_multipole<double>(rb, k, Pa) * C, 1e-10, "Coulomb is C^T J(C P C^T) C with its own density", es);
    // rejections
    H::ok(H::throws([&] { NAO z(nullptr, C); }), "a missing underlying basis is rejected");
    int w = H::rb() ? n + H::ri(1, 3) : n - 1;
    H::ok(H::throws([&] { NAO z(u, M(M::Zero(w, na))); }), "a wrong number of coefficient rows is rejected", H::str("rows=%d of %d", w, n));
    H::ok(H::throws([&] { NAO z(u, M(n, 0)); }), "zero contracted functions are rejected");
    int wc = H::rb() ? na + 1 : na - 1;
    H::ok(H::throws([&] { a.eval_orbs(M(M::Zero(wc, 2)), r); }), "orbital coefficients of the wrong length are rejected", H::str("rows=%d of %d", wc, na));
    std::shared_ptr<const B::RadialBasis> u2(new RB(*c.fe, 15));
    NAO o(u2, D);
    M bad1 = M::Zero(nb + 1, nb), bad2 = M::Zero(nb, nb + 1), eo = M::Zero(aa.Nbf(), aa.Nbf());
    typedef std::function<M(const NAO &, const NAO &, const M &)> Op;
    std::vector<std::pair<const char *, Op>> ops = {
        {"coulomb_radial", [&](const NAO &p, const NAO &q, const M &d) { return p.coulomb_radial(k, q, d); }},
        {"exchange_radial", [&](const NAO &p, const NAO &q, const M &d) { return p.exchange_radial(k, q, d); }},
        {"coulomb_radial_yukawa", [&](const NAO &p, const NAO &q, const M &d) { return p.coulomb_radial_yukawa(k, lam, q, d); }},
        {"exchange_radial_yukawa", [&](const NAO &p, const NAO &q, const M &d) { return p.exchange_radial_yukawa(k, lam, q, d); }}};
    for (auto &op : ops) {
      H::ok(H::throws([&] { op.second(a, o, x); }), "bases over different underlying bases are rejected", op.first);
      H::ok(H::throws([&] { op.second(a, b, bad1); }), "a density of the wrong shape is rejected", op.first);
      H::ok(H::throws([&] { op.second(a, b, bad2); }), "a density of the wrong shape is rejected", op.first);
      H::ok(H::throws([&] { op.second(aa, aa, eo); }), "an underlying basis without finite elements is rejected", op.first);
    }
    double bl = H::rb() ? 0 : -H::rr(0.1, 2);
    H::ok(H::throws([&] { a.coulomb_radial_yukawa(k, bl, b, x); }), "a non-positive screening parameter is rejected", H::str("%.17g", bl));
    H::ok(H::throws([&] { a.exchange_radial_yukawa(k, bl, b, x); }), "a non-positive screening parameter is rejected", H::str("%.17g", bl));
  });
}

int main(int argc, char **argv) {
  H::init();
  std::string p = argc > 1 ? argv[1] : "C12";
  gauss(32);
  if (p == "C12") c12(H::thorough ? 1500 : 150);
  else c20(H::thorough ? 2000 : 250);
  return H::finish();
}
