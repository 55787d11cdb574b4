// C03-C06: primitive polynomial families evaluated against an independent
// truncated-Taylor-series oracle (long double arithmetic).
#include "h.h"
#include <PolynomialBasis.h>
#include <lobatto.h>
#include <algorithm>
using namespace helfem;
using namespace helfem::polynomial_basis;
typedef long double R;
static const int MAXN = 21;

// truncated series c0 + c1 t + ...; a = running absolute bound for the tolerance
struct S {
  std::vector<R> c, a;
  explicit S(int n, R v = 0) : c(n + 1, 0), a(n + 1, 0) { c[0] = v; a[0] = fabsl(v); }
  static S lin(int n, R v) { S s(n, v); if (n > 0) { s.c[1] = 1; s.a[1] = 1; } return s; }
  S operator*(const S &o) const {
    S r((int)c.size() - 1);
    for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; i + j < c.size(); j++) { r.c[i + j] += c[i] * o.c[j]; r.a[i + j] += a[i] * o.a[j]; }
    return r;
  }
  S operator+(const S &o) const { S r(*this); for (size_t i = 0; i < c.size(); i++) { r.c[i] += o.c[i]; r.a[i] += o.a[i]; } return r; }
  S operator*(R f) const { S r(*this); for (size_t i = 0; i < c.size(); i++) { r.c[i] *= f; r.a[i] *= fabsl(f); } return r; }
  S inv() const { // 1/s
    int n = c.size() - 1; S r(n, 1 / c[0]);
    for (int k = 1; k <= n; k++) { R t = 0, ta = 0; for (int i = 1; i <= k; i++) { t += c[i] * r.c[k - i]; ta += a[i] * r.a[k - i]; } r.c[k] = -t / c[0]; r.a[k] = ta / fabsl(c[0]); }
    return r;
  }
  R der(int n) const { R f = 1; for (int i = 2; i <= n; i++) f *= i; return f * c[n]; }
  R mag(int n) const { R f = 1; for (int i = 2; i <= n; i++) f *= i; return f * a[n]; }
};

struct Fam { int id, nn, K; std::vector<R> x; };  // K = Hermite order (0 for LIP), id 3 = Legendre

// series at x of the Lagrange polynomial of node i; omit = factors (x-x_0) left out
static S lag(const Fam &f, int i, R x, int n, bool omit0 = false) {
  S s(n, 1);
  for (int j = 0; j < f.nn; j++) if (j != i) {
    R d = 1 / (f.x[i] - f.x[j]);
    if (omit0 && j == 0) s = s * d; else s = s * (S::lin(n, x - f.x[j]) * d);
  }
  return s;
}
static S leg(int l, R x, int n) {
  S p0(n, 1), p1 = S::lin(n, x), X = S::lin(n, x);
  if (l == 0) return p0;
  for (int k = 1; k < l; k++) { S p2 = (X * p1) * ((2 * k + 1) / (R)(k + 1)) + p0 * (-(R)k / (k + 1)); p0 = p1; p1 = p2; }
  return p1;
}
// (P_{j+1}-P_{j-1})/(x+1) expanded about x
static S leg_over(int l, R x, int n) { // (P_l(x)-P_l(-1))/(x+1)
  if (x > -0.7L) { S a = leg(l, x, n); a.c[0] -= (l % 2 ? -1 : 1); return a * S::lin(n, x + 1).inv(); }
  S y = S::lin(n, (x + 1)), pw(n, 1), r(n);
  R b = 1;
  for (int k = 1; k <= l; k++) { b = b * (R)(l - k + 1) * (R)(l + k) / ((R)k * k) * -0.5L; r = r + pw * b; pw = pw * y; }
  return r * (l % 2 ? -1 : 1);
}
// series in the reference coordinate of primitive q; over = divided by (x+1)
static S prim(const Fam &f, int q, R x, int n, R e, bool over) {
  if (f.id == 3) {
    int lm = f.nn - 1;
    if (q == lm) return over ? S(n, 0.5L) : (S(n, 1) + S::lin(n, x)) * 0.5L;
    if (q == 0) return (S(n, 1) + S::lin(n, x) * -1) * 0.5L;
    R g = 1 / sqrtl(4 * q + 2);
    if (over) return (leg_over(q + 1, x, n) + leg_over(q - 1, x, n) * -1) * g;
    return (leg(q + 1, x, n) + leg(q - 1, x, n) * -1) * g;
  }
  int K = f.K, i = q / (K + 1), j = q % (K + 1);
  S Li = lag(f, i, x, n);
  S Lo = over && i > 0 ? lag(f, i, x, n, true) : Li;
  S r = Lo;
  for (int k = 0; k < K; k++) r = r * Li;
  R fac = 1;
  for (int k = 1; k <= j; k++) fac *= k;
  S d = S::lin(n, x - f.x[i]);
  for (int k = 0; k < j; k++) { if (over && i == 0 && k == 0) continue; r = r * d; }
  if (K > 0) {
    S l0 = lag(f, i, f.x[i], K), pw(K, 1);
    for (int k = 0; k <= K; k++) pw = pw * l0;
    S c = pw.inv(), w(n), p(n, 1);
    for (int m = 0; m <= K - j; m++) { S t = p * c.c[m]; for (size_t k = 0; k < t.a.size(); k++) t.a[k] = p.a[k] * c.a[m]; w = w + t; p = p * d; }
    r = r * w;
  }
  R es = 1;
  for (int k = 0; k < j; k++) es *= e;
  return r * (es / fac);
}

template <class T> static std::unique_ptr<PolynomialBasisT<T>> gen(Fam &f, R &e, bool shuffle = true) {
  static const int IDS[] = {3, 4, 4, 5, 5, 8, 9};
  f.id = IDS[H::ri(0, 6)];
  f.K = f.id == 5 ? 1 : f.id == 8 ? 2 : f.id == 9 ? 3 : 0;
  f.nn = H::ri(2, f.K == 0 ? 10 : 7 - f.K);
  e = H::ri(0, 3) == 0 ? 1 : (R)H::rr(0.1, 4);
  e = (T)e;
  std::unique_ptr<PolynomialBasisT<T>> p;
  int kind = H::ri(0, 2);
  Vec<T> x, w;
  if (f.id == 3) { p.reset(new LegendreBasisT<T>(f.nn, 3)); kind = 0; }
  else {
    if (kind == 0) helfem::lobatto::lobatto_compute<T>(f.nn, x, w);
    else {
      x.resize(f.nn);
      for (int i = 0; i < f.nn; i++) x(i) = -1 + T(2) * i / (f.nn - 1);
      if (kind == 2) for (int i = 1; i + 1 < f.nn; i++) x(i) += T(H::rr(-0.3, 0.3)) * 2 / (f.nn - 1);
    }
    f.x.assign(x.data(), x.data() + f.nn);
    std::sort(f.x.begin(), f.x.end());
    if (shuffle && H::rb()) std::shuffle(x.data(), x.data() + f.nn, H::rng);
    if (f.id == 4) p.reset(new LIPBasisT<T>(x, 4));
    else if (f.id == 5) p.reset(new HIPBasisT<T>(x, 5));
    else if (f.id == 8) p.reset(new HIP2BasisT<T>(x, 8));
    else p.reset(new HIP3BasisT<T>(x, 9));
  }
  if (H::ri(0, 3) == 0) p.reset(p->copy());
  H::kase("T=%s family=%d nodes=%d nodeset=%d element_size=%.17Lg", sizeof(T) == 8 ? "double" : "long double", f.id, f.nn, kind, e);
  return p;
}
static int maxord(const Fam &f) { return f.id == 3 ? 2 : f.id == 4 ? 20 : f.id == 5 ? 20 : 5; }
static int maxover(const Fam &f) { return f.id == 3 ? 2 : f.id == 4 ? 20 : 2; }
template <class T> static Vec<T> pts(const Fam &f, int n) {
  Vec<T> x(n);
  for (int i = 0; i < n; i++) {
    int k = H::ri(0, 5);
    x(i) = k == 0 ? T(-1) : k == 1 ? T(1) : k == 2 && f.id != 3 ? T(f.x[H::ri(0, f.nn - 1)]) : k == 3 ? T(-1 + std::pow(10., H::rr(-14, -1))) : T(H::rr(-1, 1));
  }
  return x;
}
template <class T> static void c03(int N) {
  const double tol = sizeof(T) == 8 ? 2e-10 : 2e-12;
  for (int it = 0; it < N; it++) H::guard([&] {
    Fam f; R e;
    auto p = gen<T>(f, e);
    int np = f.id == 3 ? f.nn : f.nn * (f.K + 1);
    H::ok(p->get_nbf() == np && p->get_nprim() == np && p->get_nnodes() == f.nn, "number of primitives", H::str("nbf %d nprim %d expected %d", p->get_nbf(), p->get_nprim(), np));
    int m = maxord(f);
    Vec<T> x = pts<T>(f, 4);
    int hi = std::min(m, 13);
    for (int n = 0; n <= hi; n++) {
      Mat<T> d = p->eval_dnf(x, n, T(e));
      if (!H::ok(d.rows() == x.size() && d.cols() == np, "one row per point, one column per function")) return;
      for (int i = 0; i < x.size(); i++) for (int q = 0; q < np; q++) {
        S s = prim(f, q, x(i), n, e, false);
        R sc = powl(e, -n);
        double mg = (double)(s.mag(n) * sc);
        H::near((double)d(i, q), (double)(s.der(n) * sc), tol, "returned derivative is the derivative of the function", H::str("order %d function %d x=%.17g", n, q, (double)x(i)), -std::max(1.0, mg));
      }
    }
    // an order beyond the tables is rejected (or, should it become supported, correct)
    Mat<T> dx;
    if (!H::throws([&] { dx = p->eval_dnf(x, m + 1, T(e)); }))
      for (int i = 0; i < x.size(); i++) for (int q = 0; q < np; q++) {
        S s = prim(f, q, x(i), m + 1, e, false);
        R sc = powl(e, -m - 1);
        H::near((double)dx(i, q), (double)(s.der(m + 1) * sc), 1e-6, "unsupported derivative order is rejected", H::str("order %d function %d", m + 1, q), -std::max(1.0, (double)(s.mag(m + 1) * sc)));
      }
    H::evals++;
    H::ok(H::throws([&] { p->eval_dnf(x, -1, T(e)); }), "unsupported derivative order is rejected", "order -1");
  });
  // high orders need many nodes
  for (int n = 10; n <= 20; n++) for (int ex = 1; ex <= 2; ex++) H::guard([&] {
    Fam f; f.id = 4; f.K = 0; f.nn = n + ex;
    Vec<T> x, w; helfem::lobatto::lobatto_compute<T>(f.nn, x, w);
    f.x.assign(x.data(), x.data() + f.nn);
    H::kase("T=%s Lagrange nodes=%d order=%d", sizeof(T) == 8 ? "double" : "long double", f.nn, n);
    LIPBasisT<T> b(x, 4);
    Vec<T> xx(2); xx(0) = T(0.3); xx(1) = T(-1);
    Mat<T> d = b.eval_dnf(xx, n, T(1));
    for (int i = 0; i < 2; i++) for (int q = 0; q < f.nn; q++) {
      S s = prim(f, q, xx(i), n, 1, false);
      H::near((double)d(i, q), (double)s.der(n), 1e-8, "returned derivative is the derivative of the function", H::str("order %d function %d", n, q), -(double)s.mag(n));
    }
  });
  for (int n = 10; n <= 20; n++) H::guard([&] {
    Fam f; f.id = 5; f.K = 1; f.nn = (n + 4) / 2;
    Vec<T> x, w; helfem::lobatto::lobatto_compute<T>(f.nn, x, w);
    f.x.assign(x.data(), x.data() + f.nn);
    H::kase("T=%s Hermite nodes=%d order=%d", sizeof(T) == 8 ? "double" : "long double", f.nn, n);
    HIPBasisT<T> b(x, 5);
    Vec<T> xx(2); xx(0) = T(0.3); xx(1) = T(-1);
    Mat<T> d = b.eval_dnf(xx, n, T(0.7));
    for (int i = 0; i < 2; i++) for (int q = 0; q < 2 * f.nn; q++) {
      S s = prim(f, q, xx(i), n, (R)T(0.7), false);
      R sc = powl((R)T(0.7), -n);
      H::near((double)d(i, q), (double)(s.der(n) * sc), 1e-7, "returned derivative is the derivative of the function", H::str("order %d function %d", n, q), -(double)(s.mag(n) * sc));
    }
  });
}
template <class T> static void c04(int N) {
  const double tol = sizeof(T) == 8 ? 1e-9 : 1e-11;
  for (int it = 0; it < N; it++) H::guard([&] {
    Fam f; R e;
    auto p = gen<T>(f, e);
    if (f.id == 3) {
      Vec<T> x(2); x(0) = -1; x(1) = 1;
      Mat<T> d = p->eval_dnf(x, 0, T(e));
      for (int q = 0; q < d.cols(); q++) {
        H::near((double)d(0, q), q == 0, 1e-12, "Legendre shape function at the left end", H::str("function %d", q));
        H::near((double)d(1, q), q == f.nn - 1, 1e-12, "Legendre shape function at the right end", H::str("function %d", q));
      }
      return;
    }
    Vec<T> x(f.nn);
    for (int i = 0; i < f.nn; i++) x(i) = T(f.x[i]);
    Vec<T> nd = p->get_nodes();
    for (int i = 0; i < f.nn; i++) H::near((double)nd(i), (double)x(i), 0, "nodes are reported in increasing order", H::str("node %d", i));
    for (int n = 0; n <= f.K; n++) {
      Mat<T> d = p->eval_dnf(x, n, T(e));
      for (int i = 0; i < f.nn; i++) for (int q = 0; q < d.cols(); q++) {
        S s = prim(f, q, x(i), n, e, false);
        double mg = std::max(1., (double)(s.mag(n) * powl(e, -n)));
        H::near((double)d(i, q), q == i * (f.K + 1) + n, tol, "nodal value or derivative is one for its own function and zero for all others", H::str("order %d function %d node %d", n, q, i), -mg);
      }
    }
  });
}
template <class T> static void c05(int N) {
  for (int it = 0; it < N; it++) H::guard([&] {
    Fam f; R e;
    auto p = gen<T>(f, e);
    bool fl = H::rb(), dl = H::rb(), fr = H::rb(), dr = H::rb();
    std::string cs = H::curcase;
    H::nontriv--;
    int order = H::ri(0, 2);
    int np = p->get_nbf();
    H::kase("%s left(func,deriv)=%d%d right=%d%d order=%d", cs.c_str(), fl, dl, fr, dr, order);
    auto keep = [&](bool L, bool Rr) {
      std::vector<int> k;
      int per = f.K + 1;
      for (int q = 0; q < np; q++) {
        bool first = f.id == 3 ? q == 0 : q / per == 0, last = f.id == 3 ? q == np - 1 : q / per == f.nn - 1;
        int j = f.id == 3 ? 0 : q % per;
        bool z = false;
        if (L && first && ((fl && j == 0) || (dl && j > 0))) z = true;
        if (Rr && last && ((fr && j == 0) || (dr && j > 0))) z = true;
        if (!z) k.push_back(q);
      }
      return k;
    };
    auto check = [&](bool L, bool Rr) {
      std::vector<int> k = keep(L, Rr);
      IVec en = p->get_enabled();
      bool same = en.size() == (long)k.size() && p->get_nbf() == (int)k.size();
      std::string s;
      for (int i = 0; i < en.size(); i++) { s += H::str(" %d", (int)en(i)); if (same && (int)en(i) != k[i]) same = false; }
      H::ok(same, "exactly the functions violating the boundary condition are removed, the others keep their order", "kept" + s);
      H::ok(p->get_nprim() == np, "number of primitives is unchanged by dropping");
      if (en.size() == 0) return;
      Vec<T> x(2); x(0) = -1; x(1) = 1;
      for (int n = 0; n <= f.K; n++) {
        Mat<T> d = p->eval_dnf(x, n, T(e));
        H::ok(d.cols() == en.size(), "evaluation returns the kept functions");
        for (int c = 0; c < d.cols(); c++) {
          if (L && ((n == 0 && fl) || (n > 0 && dl))) H::near((double)d(0, c), 0, 1e-6, "kept functions satisfy the left boundary condition", H::str("order %d column %d", n, c));
          if (Rr && ((n == 0 && fr) || (n > 0 && dr))) H::near((double)d(1, c), 0, 1e-6, "kept functions satisfy the right boundary condition", H::str("order %d column %d", n, c));
        }
      }
    };
    if (f.nn == 2 && f.id == 3) { }
    if (order == 0) { p->drop_first(fl, dl); check(true, false); p->drop_last(fr, dr); check(true, true); }
    else if (order == 1) { p->drop_last(fr, dr); check(false, true); p->drop_first(fl, dl); check(true, true); }
    else {
      p->drop_first(false, false); p->drop_last(false, false);
      fl = dl = fr = dr = false; check(true, true);
    }
  });
}
template <class T> static void c06(int N) {
  const double tol = sizeof(T) == 8 ? 2e-10 : 2e-12;
  for (int it = 0; it < N; it++) H::guard([&] {
    Fam f; R e;
    auto p = gen<T>(f, e);
    std::string cs = H::curcase;
    H::nontriv--;
    bool d1 = H::rb(), fr = H::rb(), dr = H::rb();
    H::kase("%s left(func,deriv)=1%d right=%d%d", cs.c_str(), d1, fr, dr);
    Vec<T> x = pts<T>(f, 5);
    H::ok(H::throws([&] { p->eval_over_r(x, 0, T(e)); }), "division by r is rejected when a function with nonzero value at the origin is present");
    p->drop_first(true, d1);
    p->drop_last(fr, dr);
    IVec en = p->get_enabled();
    if (en.size() == 0) { H::ok(H::throws([&] { p->eval_over_r(x, 0, T(e)); }), "division by r without functions is rejected"); return; }
    if (f.id == 5 && f.nn == 2 && en.size() == 0) return;
    int m = std::min(maxover(f), 9);
    for (int n = 0; n <= m; n++) {
      Mat<T> d = p->eval_over_r(x, n, T(e));
      if (!H::ok(d.rows() == x.size() && d.cols() == en.size(), "one column per surviving function")) return;
      for (int i = 0; i < x.size(); i++) for (int c = 0; c < en.size(); c++) {
        S s = prim(f, (int)en(c), x(i), n, e, true);
        R sc = powl(e, -n - 1);
        H::near((double)d(i, c), (double)(s.der(n) * sc), tol, "returned value is the r-derivative of B(r)/r", H::str("order %d column %d x=%.17g", n, c, (double)x(i)), -std::max(1.0, (double)(s.mag(n) * sc)));
      }
    }
    int mx = maxover(f);
    Mat<T> dx;
    if (!H::throws([&] { dx = p->eval_over_r(x, mx + 1, T(e)); }))
      for (int i = 0; i < x.size(); i++) for (int c = 0; c < en.size(); c++) {
        S s = prim(f, (int)en(c), x(i), mx + 1, e, true);
        R sc = powl(e, -mx - 2);
        H::near((double)dx(i, c), (double)(s.der(mx + 1) * sc), 1e-6, "unsupported derivative order is rejected", H::str("order %d column %d", mx + 1, c), -std::max(1.0, (double)(s.mag(mx + 1) * sc)));
      }
    H::evals++;
    H::ok(H::throws([&] { p->eval_over_r(x, -1, T(e)); }), "unsupported derivative order is rejected", "order -1");
  });
}
template <class T> static void factory() {
  for (int id = -2; id <= 110; id++) for (int nn = -1; nn <= 12; nn++) H::guard([&] {
    H::kase("factory family=%d nodes=%d", id, nn);
    bool dbl = id == 100 || id == 101;
    bool okid = id == 3 || id == 4 || id == 5 || id == 8 || id == 9 || dbl;
    std::unique_ptr<PolynomialBasis> p, pt;
    bool t1 = H::throws([&] { p.reset(get_basis(id, nn)); });
    bool t2 = H::throws([&] { pt.reset(get_basis_T<double>(id, nn)); });
    H::ok(t1 == !(okid && nn >= 2), "factory accepts exactly the documented families with at least two nodes");
    H::ok(t2 == !(okid && !dbl && nn >= 2), "templated factory accepts exactly the documented families with at least two nodes");
    if (t1) return;
    int eid = id == 100 ? 4 : id == 101 ? 5 : id;
    int np = eid == 5 ? 2 * nn : eid == 8 ? 3 * nn : eid == 9 ? 4 * nn : nn;
    H::ok(p->get_id() == eid && p->get_nnodes() == nn && p->get_nprim() == np && p->get_nbf() == np, "factory builds the requested family and size");
    H::ok(p->get_noverlap() == np / nn, "overlap is the number of functions per node");
    if (!t2) {
      Vec<double> x(2); x(0) = -0.3; x(1) = 0.9;
      H::ok((p->eval_dnf(x, 1, 0.7) - pt->eval_dnf(x, 1, 0.7)).norm() == 0, "both factories build the same functions");
    }
    if (eid != 3) {
      Vec<double> nd = p->get_nodes(), x, w;
      if (dbl) { x.resize(nn); for (int i = 0; i < nn; i++) x(i) = std::cos(M_PI * (nn - 1 - i) / (nn - 1)); }
      else helfem::lobatto::lobatto_compute<double>(nn, x, w);
      for (int i = 0; i < nn; i++) H::near(nd(i), x(i), 1e-14, "node set of the factory family");
    }
  });
}
int main(int argc, char **argv) {
  H::init();
  std::string m = argc > 1 ? argv[1] : "C03";
  int k = H::thorough ? 8 : 1;
  if (m == "C03") { c03<double>(150 * k); c03<long double>(60 * k); factory<double>(); }
  if (m == "C04") { c04<double>(300 * k); c04<long double>(100 * k); }
  if (m == "C05") { c05<double>(600 * k); c05<long double>(100 * k); }
  if (m == "C06") { c06<double>(300 * k); c06<long double>(100 * k); }
  return H::finish();
}
