// C01, C02, C08: FiniteElementBasisT<double>/<long double> contracts evaluated on concrete meshes.
#include "h.h"
#include <FiniteElementBasis.h>
#include <PolynomialBasis.h>
#include <lobatto.h>
#include <algorithm>
using namespace helfem;
using namespace helfem::polynomial_basis;

template <class T> struct Case {
  int id, nn; std::vector<T> b; bool fl, dl, fr, dr;
  std::shared_ptr<const PolynomialBasisT<T>> poly;
  std::unique_ptr<FiniteElementBasisT<T>> fe;
  Vec<T> bv() const { Vec<T> v(b.size()); for (size_t i = 0; i < b.size(); i++) v(i) = b[i]; return v; }
};
static const int IDS[] = {3, 4, 5, 8, 9};

template <class T> static Case<T> gen(int maxel = 7, bool fromzero = false) {
  Case<T> c;
  c.id = IDS[H::ri(0, 4)];
  int hi = c.id == 3 || c.id == 4 ? 10 : c.id == 5 ? 6 : c.id == 8 ? 4 : 3;
  c.nn = H::ri(2, hi);
  int ne = H::ri(1, maxel);
  if (H::ri(0, 9) == 0) ne = 1;
  T x = fromzero || H::rb() ? T(0) : T(H::rr(-3, 3));
  c.b.push_back(x);
  for (int i = 0; i < ne; i++) { x += T(H::ri(0, 3) == 0 ? H::rr(3, 12) : H::rr(0.2, 1.5)); c.b.push_back(x); }
  c.fl = H::rb(); c.dl = H::rb(); c.fr = H::rb(); c.dr = H::rb();
  c.poly.reset(get_basis_T<T>(c.id, c.nn));
  std::string m;
  for (T v : c.b) m += H::str(" %.17g", (double)v);
  H::kase("T=%s family=%d nodes=%d zero(func,deriv)left=%d%d right=%d%d mesh=[%s ]", sizeof(T) == 8 ? "double" : "long double", c.id, c.nn, c.fl, c.dl, c.fr, c.dr, m.c_str());
  return c;
}
// too few functions to keep anything after the drops / overlap larger than the element
template <class T> static bool degenerate(const Case<T> &c) {
  std::unique_ptr<PolynomialBasisT<T>> p(c.poly->copy());
  p->drop_first(c.fl, c.dl);
  p->drop_last(c.fr, c.dr);
  return p->get_nbf() < 1 || (c.b.size() > 2 && p->get_nbf() < 2 * p->get_noverlap());
}
template <class T> static Case<T> make(int maxel = 7, bool fromzero = false) {
  for (;;) {
    Case<T> c = gen<T>(maxel, fromzero);
    if (degenerate(c)) { H::nontriv--; continue; }
    c.fe.reset(new FiniteElementBasisT<T>(c.poly, c.bv(), c.fl, c.dl, c.fr, c.dr));
    return c;
  }
}

template <class T> static void numbering(const FiniteElementBasisT<T> &fe, const Case<T> &c) {
  size_t ne = c.b.size() - 1;
  if (!H::ok(fe.get_nelem() == ne, "element count is boundaries minus one")) return;
  const int ov = c.poly->get_noverlap();
  size_t next = 0;
  for (size_t e = 0; e < ne; e++) {
    std::unique_ptr<PolynomialBasisT<T>> p(c.poly->copy());
    if (e == 0) p->drop_first(c.fl, c.dl);
    if (e + 1 == ne) p->drop_last(c.fr, c.dr);
    size_t n = p->get_nbf();
    size_t f, l;
    fe.get_idx(e, f, l);
    size_t ef = e == 0 ? 0 : next - ov;
    H::ok(f == ef, "first index of an element follows from the overlap with its left neighbour", H::str("element %zu first %zu expected %zu", e, f, ef));
    H::ok(l + 1 - f == n, "index range length equals the number of element functions", H::str("element %zu range %zu..%zu functions %zu", e, f, l, n));
    H::ok(fe.get_nprim(e) == n, "per-element function count honours boundary conditions of the end elements only", H::str("element %zu", e));
    Vec<T> x(1); x(0) = T(0.25);
    H::ok((size_t)fe.eval_dnf(x, 0, e).cols() == n, "element evaluation returns one column per indexed function", H::str("element %zu", e));
    H::ok(fe.get_basis(e)->get_enabled() == p->get_enabled(), "element keeps exactly the functions its boundary conditions allow", H::str("element %zu", e));
    next = ef + n;
  }
  H::ok(fe.get_nbf() == next, "number of basis functions is one past the last index", H::str("nbf %zu expected %zu", fe.get_nbf(), next));
  H::ok(fe.get_max_nprim() == (size_t)c.poly->get_nprim(), "maximal element size is that of the primitive family");
  H::ok(fe.get_poly_id() == c.poly->get_id() && fe.get_poly_nnodes() == c.poly->get_nnodes(), "primitive family is reported unchanged");
}

template <class T> static void c01(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    Case<T> c = make<T>(it % 10 == 0 ? 40 : 7);
    numbering(*c.fe, c);
    // continuity of shared functions
    const int ov = c.poly->get_noverlap();
    Vec<T> xl(1), xr(1); xl(0) = 1; xr(0) = -1;
    for (size_t e = 0; e + 1 < c.fe->get_nelem(); e++)
      for (int d = 0; d < ov; d++) {
        Mat<T> L = c.fe->eval_dnf(xl, d, e), R = c.fe->eval_dnf(xr, d, e + 1);
        for (int k = 0; k < ov; k++)
          H::near((double)L(0, L.cols() - ov + k), (double)R(0, k), 1e-6, "shared functions continue across the element boundary", H::str("elements %zu,%zu derivative %d function %d", e, e + 1, d, k));
      }
    // growing the mesh keeps the numbering contract
    int k = H::ri(0, 3);
    for (int i = 0; i < k; i++) {
      T r = T(H::rr((double)c.b.front() - (H::rb() ? 1 : 0), (double)c.b.back() + (H::rb() ? 2 : 0)));
      if (H::ri(0, 4) == 0) r = c.b[H::ri(0, c.b.size() - 1)];
      c.fe->add_boundary(r);
      if (std::find(c.b.begin(), c.b.end(), r) == c.b.end()) { c.b.push_back(r); std::sort(c.b.begin(), c.b.end()); }
      if (degenerate(c)) return;
      numbering(*c.fe, c);
    }
  });
}

template <class T> static void c02(int N) {
  const double eps = sizeof(T) == 8 ? 1e-13 : 1e-15;
  for (int it = 0; it < N; it++) H::guard([&] {
    Case<T> c = make<T>(it % 5 == 0 ? 60 : 9);
    auto &fe = *c.fe;
    size_t ne = c.b.size() - 1;
    for (size_t e = 0; e < ne; e++) {
      T a = c.b[e], b = c.b[e + 1];
      H::ok(fe.element_begin(e) == a && fe.element_end(e) == b, "element ends are the mesh boundaries", H::str("element %zu", e));
      H::near((double)fe.element_length(e), (double)(b - a), eps, "element length", H::str("element %zu", e));
      H::near((double)fe.element_midpoint(e), (double)((a + b) / 2), eps, "element midpoint", H::str("element %zu", e));
      H::near((double)fe.scaling_factor(e), (double)((b - a) / 2), eps, "scaling factor is half the element length", H::str("element %zu", e));
      int n = H::ri(1, 6);
      Vec<T> x(n);
      for (int i = 0; i < n; i++) x(i) = i == 0 ? T(-1) : i == 1 ? T(1) : T(H::rr(-1, 1));
      Vec<T> r = fe.eval_coord(x, e);
      H::ok(r.size() == n, "coordinate map keeps the number of points");
      for (int i = 0; i < n; i++) {
        H::near((double)r(i), (double)(a + (x(i) + 1) / 2 * (b - a)), eps, "reference to real coordinate", H::str("element %zu x=%.17g", e, (double)x(i)));
        H::near((double)fe.eval_coord(x(i), e), (double)r(i), eps, "scalar and vector coordinate maps agree", H::str("element %zu", e));
        r(i) = std::min(std::max(r(i), a), b);
      }
      Vec<T> xp = fe.eval_prim(r, e);
      for (int i = 0; i < n; i++) H::near((double)xp(i), (double)x(i), 1e-11, "real to reference inverts reference to real", H::str("element %zu x=%.17g", e, (double)x(i)));
      Vec<T> bad(2); bad(0) = (a + b) / 2; bad(1) = H::rb() ? b + (b - a) * T(1e-3) : a - (b - a) * T(1e-3);
      H::ok(H::throws([&] { fe.eval_prim(bad, e); }), "points outside the element are rejected", H::str("element %zu point %.17g", e, (double)bad(1)));
      // location
      T pt = a + (b - a) * T(H::rr(0.001, 0.999));
      H::ok(fe.find_element(pt) == e, "an interior point is located in the element containing it", H::str("point %.17g got %zu expected %zu", (double)pt, fe.find_element(pt), e));
      size_t fb = fe.find_element(a);
      H::ok(fb < ne && c.b[fb] <= a && a <= c.b[fb + 1], "a boundary point is located in an element touching it", H::str("point %.17g got %zu", (double)a, fb));
      fb = fe.find_element(b);
      H::ok(fb < ne && c.b[fb] <= b && b <= c.b[fb + 1], "a boundary point is located in an element touching it", H::str("point %.17g got %zu", (double)b, fb));
    }
    H::ok(H::throws([&] { fe.element_length(ne); }) && H::throws([&] { fe.element_begin(ne); }) && H::throws([&] { fe.element_end(ne + 3); }), "a non-existent element is rejected");
    H::ok(fe.find_element(c.b.front() - 1) == 0 && fe.find_element(c.b.back() + 1) == ne - 1, "points beyond the mesh are assigned to the nearest end element");
    // whole-mesh maps
    int n = H::ri(1, 5);
    Vec<T> x(n), w(n);
    for (int i = 0; i < n; i++) { x(i) = T(H::rr(-1, 1)); w(i) = T(H::rr(0, 1)); }
    Vec<T> R = fe.eval_coord(x), W = fe.eval_weights(w);
    if (H::ok(R.size() == (long)(n * ne) && W.size() == (long)(n * ne), "whole-mesh grid has points times elements entries"))
      for (size_t e = 0; e < ne; e++) for (int i = 0; i < n; i++) {
        H::near((double)R(e * n + i), (double)(c.b[e] + (x(i) + 1) / 2 * (c.b[e + 1] - c.b[e])), eps, "whole-mesh coordinates", H::str("element %zu point %d", e, i));
        H::near((double)W(e * n + i), (double)(w(i) * (c.b[e + 1] - c.b[e]) / 2), eps, "whole-mesh weights", H::str("element %zu point %d", e, i));
      }
    // inserting boundaries
    int k = H::ri(1, 4);
    for (int i = 0; i < k; i++) {
      T r = T(H::rr((double)c.b.front() - (H::rb() ? 1 : 0), (double)c.b.back() + (H::rb() ? 2 : 0)));
      if (H::ri(0, 2) == 0) r = c.b[H::ri(0, c.b.size() - 1)];
      if (H::ri(0, 5) == 0) { size_t j = H::ri(0, c.b.size() - 1); r = std::nextafter(c.b[j], T(1e9)); }
      fe.add_boundary(r);
      if (std::find(c.b.begin(), c.b.end(), r) == c.b.end()) { c.b.push_back(r); std::sort(c.b.begin(), c.b.end()); }
      Vec<T> bv = fe.get_bval();
      bool same = bv.size() == (long)c.b.size();
      for (size_t j = 0; same && j < c.b.size(); j++) same = bv(j) == c.b[j];
      H::ok(same, "adding a boundary yields the sorted union", H::str("inserted %.17g", (double)r));
      H::ok(fe.get_nelem() == c.b.size() - 1, "element count after adding a boundary");
    }
  });
}

template <class T> using PF = std::function<Mat<T>(Vec<T>, size_t)>;

// reference element functions, straight from the primitive family
template <class T> static Mat<T> refbf(const Case<T> &c, const Vec<T> &x, int n, size_t e) {
  std::unique_ptr<PolynomialBasisT<T>> p(c.poly->copy());
  if (e == 0) p->drop_first(c.fl, c.dl);
  if (e + 2 == c.b.size()) p->drop_last(c.fr, c.dr);
  Mat<T> m; p->eval_dnf(x, m, n, (c.b[e + 1] - c.b[e]) / 2);
  return m;
}
template <class T> static std::vector<std::pair<size_t, size_t>> refidx(const Case<T> &c) {
  std::vector<std::pair<size_t, size_t>> v; size_t nx = 0; int ov = c.poly->get_noverlap();
  Vec<T> x(1); x(0) = 0;
  for (size_t e = 0; e + 1 < c.b.size(); e++) {
    size_t n = refbf(c, x, 0, e).cols();
    size_t f = e ? nx - ov : 0; v.push_back({f, f + n - 1}); nx = f + n;
  }
  return v;
}
// reference block: sum over reference points, sub-panels [xl,xr] of the reference element
template <class T> static Mat<long double> refblock(const Case<T> &c, size_t e, const Mat<T> &L, const Mat<T> &R, const Vec<T> &xs, const Vec<T> &w, const std::function<T(T)> &f, T xl, T xr) {
  Mat<long double> M = Mat<long double>::Zero(L.cols(), R.cols());
  T half = (c.b[e + 1] - c.b[e]) / 2, mid = (c.b[e + 1] + c.b[e]) / 2;
  for (int q = 0; q < xs.size(); q++) {
    T r = mid + half * xs(q);
    T fv = f ? f(r) : T(1);
    if (!std::isfinite(fv)) continue;
    long double ww = (long double)w(q) * half * (xr - xl) / 2 * fv;
    for (int i = 0; i < L.cols(); i++) for (int j = 0; j < R.cols(); j++) M(i, j) += ww * L(q, i) * R(q, j);
  }
  return M;
}
template <class T, class A, class B> static void cmp(const A &got, const B &ref, double tol, const char *clause, const std::string &extra = "") {
  H::evals++;
  if (got.rows() != ref.rows() || got.cols() != ref.cols()) { H::fail(clause, extra + H::str(" shape %ldx%ld expected %ldx%ld", (long)got.rows(), (long)got.cols(), (long)ref.rows(), (long)ref.cols())); return; }
  double s = 0;
  for (int j = 0; j < ref.cols(); j++) for (int i = 0; i < ref.rows(); i++) s = std::max(s, (double)std::abs(ref(i, j)));
  for (int j = 0; j < ref.cols(); j++) for (int i = 0; i < ref.rows(); i++)
    if (!(std::fabs((double)(got(i, j) - ref(i, j))) <= tol * s + 1e-11)) {
      H::fail(clause, extra + H::str(" entry (%d,%d) got %.17g expected %.17g", i, j, (double)got(i, j), (double)ref(i, j))); return;
    }
}

template <class T> static void c08(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    Case<T> c = make<T>(5, it % 3 == 0);
    auto &fe = *c.fe;
    size_t ne = c.b.size() - 1;
    auto idx = refidx(c);
    size_t nbf = idx.back().second + 1;
    int np = H::ri(1, 7);
    int lh = H::ri(0, 2), rh = H::ri(0, 2);
    Vec<T> x(np), w(np);
    for (int i = 0; i < np; i++) { x(i) = T(H::rr(-1, 1)); w(i) = T(H::rr(-1, 1)); }
    // scatter of the evaluation
    for (int d = 0; d < 3; d++) {
      Mat<T> g = fe.eval_dnf(x, d);
      Mat<T> ref = Mat<T>::Zero(np * ne, nbf);
      for (size_t e = 0; e < ne; e++) {
        Mat<T> b = refbf(c, x, d, e);
        cmp<T>(fe.eval_dnf(x, d, e), b, 1e-12, "element evaluation is the scaled primitive family", H::str("element %zu derivative %d", e, d));
        ref.block(e * np, idx[e].first, np, b.cols()) = b;
      }
      cmp<T>(g, ref, 1e-12, "mesh evaluation puts each element's functions in its own rows and index range and zero elsewhere", H::str("derivative %d", d));
    }
    // weights
    T p0 = T(H::rr(-1, 1)), p1 = T(H::rr(0.1, 2));
    std::function<T(T)> f;
    int ft = H::ri(0, 4);
    T rs = c.b[H::ri(0, ne)];
    if (ft == 1) f = [=](T r) { return p0 + p1 * r * r; };
    if (ft == 2) f = [=](T r) { return std::exp(-p1 * r) + p0; };
    if (ft == 3) f = [=](T r) { return r == rs ? std::numeric_limits<T>::infinity() : p0 / (r - rs); };
    if (ft == 4) f = [=](T r) { return std::abs(r - rs) < 1e-12 ? std::numeric_limits<T>::quiet_NaN() : p1; };
    if (ft >= 3) { x(0) = -1; if (np > 1) x(np - 1) = 1; }
    PF<T> el = [&](Vec<T> y, size_t e) { return Mat<T>(refbf(c, y, lh, e).array() * T(1 + 0.5 * e)); };
    PF<T> er = [&](Vec<T> y, size_t e) { return refbf(c, y, rh, e); };
    Mat<long double> Mref = Mat<long double>::Zero(nbf, nbf), Mder = Mref;
    Mat<long double> Vref = Mat<long double>::Zero(nbf, 1), Vder = Vref;
    for (size_t e = 0; e < ne; e++) {
      size_t f0 = idx[e].first, n = idx[e].second - f0 + 1;
      Mat<long double> B = refblock<T>(c, e, el(x, e), er(x, e), x, w, f, -1, 1);
      Mat<long double> D = refblock<T>(c, e, refbf(c, x, lh, e), refbf(c, x, rh, e), x, w, f, -1, 1);
      cmp<T>(fe.matrix_element(e, el, er, x, w, f), B, 1e-9, "element block is the quadrature sum", H::str("element %zu lh=%d rh=%d weight kind %d", e, lh, rh, ft));
      cmp<T>(fe.matrix_element(e, lh, rh, x, w, f), D, 1e-9, "element block of derivatives is the quadrature sum", H::str("element %zu lh=%d rh=%d weight kind %d", e, lh, rh, ft));
      Mref.block(f0, f0, n, n) += B; Mder.block(f0, f0, n, n) += D;
      // sub-range
      T xl = T(H::rr(-1, 0)), xr = T(H::rr(0, 1));
      Vec<T> xs = x; for (int i = 0; i < np; i++) xs(i) = (xl + xr) / 2 + (xr - xl) / 2 * x(i);
      std::function<T(T)> f2; if (ft == 1 || ft == 2) f2 = f;
      cmp<T>(fe.matrix_element(e, el, er, x, w, f2, xl, xr), refblock<T>(c, e, el(xs, e), er(xs, e), xs, w, f2, xl, xr), 1e-9, "sub-range block maps the rule to the sub-range", H::str("element %zu [%.17g,%.17g]", e, (double)xl, (double)xr));
      if (ft < 3) {
        Mat<T> one = Mat<T>::Ones(np, 1);
        Mat<long double> v = refblock<T>(c, e, el(x, e), one, x, w, f, -1, 1), vd = refblock<T>(c, e, refbf(c, x, lh, e), one, x, w, f, -1, 1);
        cmp<T>(fe.vector_element(e, el, x, w, f), v, 1e-9, "element vector is the quadrature sum", H::str("element %zu", e));
        cmp<T>(fe.vector_element(e, lh, x, w, f), vd, 1e-9, "element vector of derivatives is the quadrature sum", H::str("element %zu", e));
        Vref.block(f0, 0, n, 1) += v; Vder.block(f0, 0, n, 1) += vd;
      }
    }
    cmp<T>(fe.matrix_element(el, er, x, w, f), Mref, 1e-9, "mesh matrix is the sum of element blocks placed at their indices", H::str("lh=%d rh=%d weight kind %d", lh, rh, ft));
    cmp<T>(fe.matrix_element(lh, rh, x, w, f), Mder, 1e-9, "mesh matrix of derivatives is the sum of element blocks", H::str("lh=%d rh=%d weight kind %d", lh, rh, ft));
    if (ft < 3) {
      cmp<T>(fe.vector_element(el, x, w, f), Vref, 1e-9, "mesh vector is the sum of element vectors", "");
      cmp<T>(fe.vector_element(lh, x, w, f), Vder, 1e-9, "mesh vector of derivatives is the sum of element vectors", "");
    }
    PF<T> nul;
    H::ok(H::throws([&] { fe.matrix_element(nul, er, x, w, f); }) && H::throws([&] { fe.matrix_element(el, nul, x, w, f); }) && H::throws([&] { fe.vector_element(nul, x, w, f); }), "a missing evaluator is rejected");
    // auto-converged integrals with kinks at breakpoints
    if (it % 2 == 0 && sizeof(T) == 8) {
      std::vector<T> bp;
      int nb = H::ri(0, 4);
      for (int i = 0; i < nb; i++) bp.push_back(T(H::rr((double)c.b.front() - 0.5, (double)c.b.back() + 0.5)));
      if (nb && H::rb()) bp.push_back(bp[0]);
      if (H::rb()) bp.push_back(c.b[H::ri(0, ne)]);
      std::function<T(T)> g = [=](T r) { T s = p0; for (T q : bp) s += p1 * std::abs(r - q) + (r > q ? T(0.3) : T(0)); return s; };
      if (nb == 0 && bp.empty() && H::rb()) g = nullptr;
      Vec<T> X, W;
      lobatto::lobatto_compute<T>(90, X, W);
      // open evaluation inside each panel: a jump exactly at a node is avoided by nudging
      Mat<long double> M = Mat<long double>::Zero(nbf, nbf), MD = M;
      std::vector<Mat<long double>> blocks;
      for (size_t e = 0; e < ne; e++) {
        std::vector<T> xb{T(-1), T(1)};
        T half = (c.b[e + 1] - c.b[e]) / 2, mid = (c.b[e + 1] + c.b[e]) / 2;
        for (T q : bp) { T y = (q - mid) / half; if (y > -1 && y < 1) xb.push_back(y); }
        std::sort(xb.begin(), xb.end());
        size_t f0 = idx[e].first, n = idx[e].second - f0 + 1;
        Mat<long double> D = Mat<long double>::Zero(n, n);
        for (size_t k = 0; k + 1 < xb.size(); k++) if (xb[k + 1] > xb[k]) {
          Vec<T> xs = X; for (int i = 0; i < X.size(); i++) xs(i) = (xb[k] + xb[k + 1]) / 2 + (xb[k + 1] - xb[k]) / 2 * X(i);
          // panel-wise smooth continuation of g: evaluate the jump from the panel midpoint
          T rm = mid + half * (xb[k] + xb[k + 1]) / 2;
          std::function<T(T)> gp;
          if (g) gp = [=](T r) { T s = p0; for (T q : bp) s += p1 * (rm > q ? r - q : q - r) + (rm > q ? T(0.3) : T(0)); return s; };
          D += refblock<T>(c, e, refbf(c, xs, lh, e), refbf(c, xs, rh, e), xs, W, gp, xb[k], xb[k + 1]);
        }
        blocks.push_back(D);
        MD.block(f0, f0, n, n) += D;
      }
      // without jumps at the panel ends the weight has to be continuous: use the kink part only
      bool jump = false; for (T q : bp) { (void)q; jump = true; }
      if (jump) { // redo with kinks only
        g = [=](T r) { T s = p0; for (T q : bp) s += p1 * std::abs(r - q); return s; };
        MD.setZero(); blocks.clear();
        for (size_t e = 0; e < ne; e++) {
          std::vector<T> xb{T(-1), T(1)};
          T half = (c.b[e + 1] - c.b[e]) / 2, mid = (c.b[e + 1] + c.b[e]) / 2;
          for (T q : bp) { T y = (q - mid) / half; if (y > -1 && y < 1) xb.push_back(y); }
          std::sort(xb.begin(), xb.end());
          size_t f0 = idx[e].first, n = idx[e].second - f0 + 1;
          Mat<long double> D = Mat<long double>::Zero(n, n);
          for (size_t k = 0; k + 1 < xb.size(); k++) if (xb[k + 1] > xb[k]) {
            Vec<T> xs = X; for (int i = 0; i < X.size(); i++) xs(i) = (xb[k] + xb[k + 1]) / 2 + (xb[k + 1] - xb[k]) / 2 * X(i);
            D += refblock<T>(c, e, refbf(c, xs, lh, e), refbf(c, xs, rh, e), xs, W, g, xb[k], xb[k + 1]);
          }
          blocks.push_back(D); MD.block(f0, f0, n, n) += D;
        }
      }
      std::string bs; for (T q : bp) bs += H::str(" %.17g", (double)q);
      int deg = H::ri(-1, 3);
      for (size_t e = 0; e < ne; e++) cmp<T>(fe.matrix_element(e, lh, rh, g, bp, deg), blocks[e], 1e-7, "converged element integral equals the panel-split integral", H::str("element %zu lh=%d rh=%d breakpoints%s", e, lh, rh, bs.c_str()));
      cmp<T>(fe.matrix_element(lh, rh, g, bp, deg), MD, 1e-7, "converged mesh integral equals the sum of panel-split element integrals", H::str("lh=%d rh=%d breakpoints%s", lh, rh, bs.c_str()));
      // converged integral over a sub-range
      PF<T> dl = [&](Vec<T> y, size_t e) { return refbf(c, y, lh, e); }, dr = [&](Vec<T> y, size_t e) { return refbf(c, y, rh, e); };
      size_t e = H::ri(0, ne - 1);
      T xl = T(H::rr(-1, 0)), xr = T(H::rr(0, 1));
      Vec<T> xs = X; for (int i = 0; i < X.size(); i++) xs(i) = (xl + xr) / 2 + (xr - xl) / 2 * X(i);
      cmp<T>(fe.matrix_element_auto(e, dl, dr, nullptr, {}, -1, xl, xr), refblock<T>(c, e, dl(xs, e), dr(xs, e), xs, W, nullptr, xl, xr), 1e-8, "converged sub-range integral", H::str("element %zu [%.17g,%.17g]", e, (double)xl, (double)xr));
    }
  });
}

int main(int argc, char **argv) {
  H::init();
  std::string m = argc > 1 ? argv[1] : "C01";
  int k = H::thorough ? 10 : 1;
  if (m == "C01") { c01<double>(3000 * k); c01<long double>(500 * k); }
  if (m == "C02") { c02<double>(2000 * k); c02<long double>(300 * k); }
  if (m == "C08") { c08<double>(1200 * k); c08<long double>(150 * k); }
  return H::finish();
}
