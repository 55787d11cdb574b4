// C16: angular channels, symmetry blocks and index lists of the atomic and diatomic bases,
// against an enumeration made from the definitions.
#include "h.h"
#include <PolynomialBasis.h>
#include <set>
#include <map>
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "diatomic/basis.h"
using namespace helfem;
typedef std::vector<Eigen::Index> IL;
typedef std::vector<int> VI;
typedef atomic::basis::TwoDBasisT<double> AT;
typedef diatomic::basis::TwoDBasis DI;

static std::string show(const IL &l) {
  std::string s;
  for (size_t i = 0; i < l.size() && i < 12; i++) s += H::str("%ld ", (long)l[i]);
  return s;
}
static Eigen::VectorXi ev(const VI &v) { Eigen::VectorXi r(v.size()); for (size_t i = 0; i < v.size(); i++) r(i) = v[i]; return r; }
static void lists(const char *what, const IL &got, const IL &ref) {
  H::ok(got == ref, what, H::str("got %s expected %s", show(got).c_str(), show(ref).c_str()));
}
// every index of [0,N) in exactly one list
static void partition(const char *what, const std::vector<IL> &b, size_t N) {
  std::vector<int> seen(N, 0);
  for (auto &l : b)
    for (auto i : l) {
      H::ok(i >= 0 && (size_t)i < N, what, H::str("index %ld of %zu functions", (long)i, N));
      if (i >= 0 && (size_t)i < N) seen[i]++;
    }
  for (size_t i = 0; i < N; i++) H::ok(seen[i] == 1, what, H::str("function %zu of %zu is in %d blocks", i, N, seen[i]));
}
static void enumerations(int n) {
  for (int it = 0; it < n; it++) {
    int lmax = H::ri(0, 12), mmax = H::ri(0, 14);
    H::kase("angular_basis lmax=%d mmax=%d", lmax, mmax);
    H::guard([&] {
      {
        Eigen::VectorXi l, m;
        atomic::basis::angular_basis(lmax, mmax, l, m);
        std::multiset<std::pair<int, int>> got, ref;
        for (int i = 0; i < l.size(); i++) got.insert({l(i), m(i)});
        for (int a = 0; a <= lmax; a++) for (int b = -std::min(a, mmax); b <= std::min(a, mmax); b++) ref.insert({a, b});
        H::ok(l.size() == m.size() && got == ref, "every admissible channel is listed exactly once", H::str("%zu channels, expected %zu", got.size(), ref.size()));
      }
      VI lm(1 + H::ri(0, 5));
      for (size_t i = 0; i < lm.size(); i++) lm[i] = H::ri(0, 9);
      Eigen::VectorXi l, m;
      diatomic::basis::lm_to_l_m(ev(lm), l, m);
      std::multiset<std::pair<int, int>> got, ref;
      for (int i = 0; i < l.size(); i++) got.insert({l(i), m(i)});
      for (int b = 0; b < (int)lm.size(); b++)
        for (int a = b; a <= lm[b]; a++) { ref.insert({a, b}); if (b) ref.insert({a, -b}); }
      H::ok(l.size() == m.size() && got == ref, "every admissible channel is listed exactly once", H::str("%zu channels, expected %zu", got.size(), ref.size()));
    });
  }
}
// random channels: each (l,m) at most once, any order
static void channels(VI &l, VI &m, bool diat) {
  int k = H::ri(0, 3);
  Eigen::VectorXi a, b;
  if (diat) {
    VI lm(1 + H::ri(0, 2));
    for (size_t i = 0; i < lm.size(); i++) lm[i] = i + H::ri(0, 3);
    diatomic::basis::lm_to_l_m(ev(lm), a, b);
  } else { int lm = H::ri(0, 3); atomic::basis::angular_basis(lm, H::ri(0, lm), a, b); }
  l.assign(a.data(), a.data() + a.size()); m.assign(b.data(), b.data() + b.size());
  if (k >= 2 && l.size() > 1) {
    for (size_t i = l.size() - 1; i; i--) { size_t j = H::ri(0, i); std::swap(l[i], l[j]); std::swap(m[i], m[j]); }
    if (k == 3) { size_t c = H::ri(1, l.size()); l.resize(c); m.resize(c); }
  }
  if (H::ri(0, 2) == 0) {   // drop one m value (m and -m need not both be there)
    int d = m[H::ri(0, m.size() - 1)];
    VI l2, m2;
    for (size_t i = 0; i < m.size(); i++) if (m[i] != d) { l2.push_back(l[i]); m2.push_back(m[i]); }
    if (d && l2.size()) { l = l2; m = m2; }
  }
}
static helfem::Vector bounds(int nel) {
  helfem::Vector b(nel + 1);
  b(0) = 0;
  for (int i = 1; i <= nel; i++) b(i) = b(i - 1) + H::rr(0.2, 1.5);
  return b;
}
static std::string vis(const VI &v) { std::string s; for (int i : v) s += H::str("%d,", i); return s; }
static VI uniq(const VI &v) { std::set<int> s(v.begin(), v.end()); return VI(s.begin(), s.end()); }

static void sinvh(const char *what, const helfem::Matrix &S, const helfem::Matrix &X, const std::vector<IL> &blocks) {
  size_t N = S.rows();
  H::ok(X.rows() == (Eigen::Index)N && X.cols() == (Eigen::Index)N, what, "shape");
  if (X.rows() != (Eigen::Index)N || X.cols() != (Eigen::Index)N) return;
  helfem::Matrix I = X.transpose() * S * X;
  double e = (I - helfem::Matrix::Identity(N, N)).cwiseAbs().maxCoeff();
  H::ok(e < 1e-7, what, H::str("X^T S X differs from unity by %.3g", e));
  std::vector<int> blk(N, -1);
  for (size_t b = 0; b < blocks.size(); b++) for (auto i : blocks[b]) blk[i] = b;
  size_t c = 0;
  for (size_t b = 0; b < blocks.size(); b++)
    for (size_t k = 0; k < blocks[b].size(); k++, c++)
      for (size_t i = 0; i < N; i++)
        if (blk[i] != (int)b) H::ok(X(i, c) == 0, "orthonormal vectors of a block use functions of that block only", H::str("X(%zu,%zu)=%g", i, c, X(i, c)));
}

static void atomic_basis(int n) {
  for (int it = 0; it < n; it++) {
    VI l, m; channels(l, m, false);
    int nel = H::ri(1, 3), nn = H::ri(3, 5), id = H::rb() ? 4 : 5;
    if (id == 5) nn = H::ri(2, 4);
    bool zd = H::rb();
    H::kase("atomic TwoDBasis l=%s m=%s primbas=%d nodes=%d elements=%d zeroder=%d", vis(l).c_str(), vis(m).c_str(), id, nn, nel, zd);
    H::guard([&] {
      std::shared_ptr<const polynomial_basis::PolynomialBasis> poly(polynomial_basis::get_basis(id, nn));
      AT b(H::ri(1, 10), modelpotential::POINT_NUCLEUS, 0.0, poly, zd, 5 * nn, bounds(nel), ev(l), ev(m), 0, 0, 0.0);
      size_t nr = b.Nrad(), na = l.size(), N = nr * na;
      H::ok(b.Nang() == na && b.Nbf() == N && b.Ndummy() == N, "one function per channel and radial function", H::str("Nbf=%zu expected %zu", b.Nbf(), N));
      auto pick = [&](std::function<bool(size_t)> f) { IL r; for (size_t i = 0; i < na; i++) if (f(i)) for (size_t k = 0; k < nr; k++) r.push_back(i * nr + k); return r; };
      for (int mm = -4; mm <= 4; mm++) {
        lists("functions of one m", b.m_indices(mm), pick([&](size_t i) { return m[i] == mm; }));
        for (int ll = 0; ll <= 4; ll++) lists("functions of one (l,m)", b.lm_indices(ll, mm), pick([&](size_t i) { return m[i] == mm && l[i] == ll; }));
      }
      auto S = b.overlap();
      for (int s = 0; s <= 2; s++) {
        auto idx = b.get_sym_idx(s);
        std::vector<IL> ref;
        if (s == 0) ref.push_back(pick([](size_t) { return true; }));
        if (s == 1) for (int mm : uniq(m)) ref.push_back(pick([&](size_t i) { return m[i] == mm; }));
        if (s == 2) for (size_t j = 0; j < na; j++) ref.push_back(pick([&](size_t i) { return i == j; }));
        partition("the symmetry blocks partition the functions", idx, N);
        H::ok(idx == ref, "each function is in the block of its own quantum numbers", H::str("symmetry %d", s));
        auto lab = b.get_sym_labels(s);
        H::ok(lab.size() == idx.size(), "one label per symmetry block", H::str("symmetry %d", s));
        H::ok(std::set<std::string>(lab.begin(), lab.end()).size() == lab.size(), "the labels are distinct", H::str("symmetry %d", s));
        if (s == 1) { size_t k = 0; for (int mm : uniq(m)) { if (k < lab.size()) H::ok(lab[k] == H::str("m=%s%d", mm > 0 ? "+" : "", mm), "the label names the m of its block", lab[k]); k++; } }
        if (s == 2) for (size_t k = 0; k < na && k < lab.size(); k++) H::ok(lab[k] == H::str("l=%d m=%s%d", l[k], m[k] > 0 ? "+" : "", m[k]), "the label names the (l,m) of its block", lab[k]);
        sinvh("Sinvh orthonormalises the basis", S, b.Sinvh(H::rb(), s), idx);
      }
      H::ok(H::throws([&] { b.get_sym_idx(H::rb() ? 3 : -1); }), "an unknown symmetry is refused");
      std::vector<int> cover(N, 0);
      for (size_t e = 0; e < b.get_rad_Nel(); e++) {
        auto r = b.radial_element_range(e);
        IL ref;
        for (size_t i = 0; i < na; i++) for (size_t k = r.first; k <= r.second; k++) ref.push_back(i * nr + k);
        auto g = b.bf_list(e);
        lists("functions of one element", g, ref);
        for (auto i : g) if (i >= 0 && (size_t)i < N) cover[i]++;
      }
      for (size_t i = 0; i < N; i++) H::ok(cover[i] >= 1, "every function lives on some element", H::str("function %zu", i));
      // matrices: radial blocks are on the diagonal of the channels
      helfem::Matrix T = b.kinetic();
      for (size_t i = 0; i < na; i++)
        for (size_t j = 0; j < na; j++) {
          if (i == j) { H::ok((S.block(i * nr, i * nr, nr, nr) - S.block(0, 0, nr, nr)).cwiseAbs().maxCoeff() == 0, "the radial overlap is the same in every channel"); continue; }
          H::ok(S.block(i * nr, j * nr, nr, nr).cwiseAbs().maxCoeff() == 0 && T.block(i * nr, j * nr, nr, nr).cwiseAbs().maxCoeff() == 0, "different channels do not overlap", H::str("%zu %zu", i, j));
        }
    });
  }
}

static void diatomic_basis(int n) {
  for (int it = 0; it < n; it++) {
    VI l, m; channels(l, m, true);
    int nel = H::ri(1, 3), nn = H::ri(3, 5), id = 4;
    H::kase("diatomic TwoDBasis l=%s m=%s nodes=%d elements=%d", vis(l).c_str(), vis(m).c_str(), nn, nel);
    H::guard([&] {
      std::shared_ptr<const polynomial_basis::PolynomialBasis> poly(polynomial_basis::get_basis(id, nn));
      DI b(H::ri(1, 10), H::ri(1, 10), H::rr(0.5, 2), poly, 5 * nn, bounds(nel), ev(l), ev(m), false);
      size_t nr = b.Nrad(), na = l.size(), ND = nr * na;
      auto sz = [&](size_t i) { return m[i] ? nr - 1 : nr; };
      std::vector<size_t> off(na + 1, 0);
      for (size_t i = 0; i < na; i++) off[i + 1] = off[i] + sz(i);
      size_t N = off[na];
      H::ok(b.Nang() == na && b.Nbf() == N && b.Ndummy() == ND, "channels with m != 0 lose their first radial function", H::str("Nbf=%zu expected %zu", b.Nbf(), N));
      auto pick = [&](std::function<bool(size_t)> f) { IL r; for (size_t i = 0; i < na; i++) if (f(i)) for (size_t k = 0; k < sz(i); k++) r.push_back(off[i] + k); return r; };
      for (int mm = -4; mm <= 4; mm++) {
        lists("functions of one m", b.m_indices(mm), pick([&](size_t i) { return m[i] == mm; }));
        for (int o = 0; o <= 1; o++) lists("functions of one m and parity", b.m_indices(mm, o), pick([&](size_t i) { return m[i] == mm && l[i] % 2 == o; }));
      }
      auto S = b.overlap();
      int am = 0; for (int x : m) am = std::max(am, std::abs(x));
      H::ok(b.absm_max() == am, "largest |m|", H::str("%d expected %d", b.absm_max(), am));
      bool closed = true;
      for (int x : m) if (std::count(m.begin(), m.end(), x) != std::count(m.begin(), m.end(), -x)) closed = false;
      for (int s = 0; s <= 3; s++) {
        auto idx = b.get_sym_idx(s);
        auto mir = b.get_sym_mirror_idx(s);
        std::vector<IL> ref;
        if (s == 0) ref.push_back(pick([](size_t) { return true; }));
        if (s == 1) for (int mm : uniq(m)) ref.push_back(pick([&](size_t i) { return m[i] == mm; }));
        if (s == 2) for (int mm : uniq(m)) for (int o = 0; o <= 1; o++) ref.push_back(pick([&](size_t i) { return m[i] == mm && l[i] % 2 == o; }));
        if (s == 3) for (int mm = 0; mm <= am; mm++) ref.push_back(pick([&](size_t i) { return m[i] == mm; }));
        std::vector<IL> all = idx; all.insert(all.end(), mir.begin(), mir.end());
        partition("the symmetry blocks and their mirrors partition the functions", all, N);
        H::ok(idx == ref, "each function is in the block of its own quantum numbers", H::str("symmetry %d", s));
        H::ok(mir.size() == idx.size(), "one mirror list per block", H::str("symmetry %d", s));
        if (s == 3) {
          for (size_t k = 0; k < mir.size(); k++) lists("the mirror of a block holds the functions with opposite m", mir[k], k ? pick([&](size_t i) { return m[i] == -(int)k; }) : IL());
        } else for (auto &x : mir) H::ok(x.empty(), "only |m| symmetry pairs blocks");
        auto lab = b.get_sym_labels(s);
        H::ok(lab.size() == idx.size(), "one label per symmetry block", H::str("symmetry %d", s));
        H::ok(std::set<std::string>(lab.begin(), lab.end()).size() == lab.size(), "the labels are distinct", H::str("symmetry %d", s));
        size_t k = 0;
        if (s == 1) for (int mm : uniq(m)) { if (k < lab.size()) H::ok(lab[k] == H::str("m=%s%d", mm > 0 ? "+" : "", mm), "the label names the m of its block", lab[k]); k++; }
        if (s == 2) for (int mm : uniq(m)) for (int o = 0; o <= 1; o++) { if (k < lab.size()) H::ok(lab[k] == H::str("m=%s%d %s", mm > 0 ? "+" : "", mm, o ? "u" : "g"), "the label names the m and parity of its block", lab[k]); k++; }
        if (s == 3) for (int mm = 0; mm <= am; mm++) { if (k < lab.size()) H::ok(lab[k] == H::str("|m|=%d", mm), "the label names the |m| of its block", lab[k]); k++; }
      }
      H::ok(H::throws([&] { b.get_sym_idx(H::rb() ? 4 : -1); }), "an unknown symmetry is refused");
      // real and dummy functions
      IL pure;
      for (size_t i = 0; i < na; i++) for (size_t k = m[i] ? 1 : 0; k < nr; k++) pure.push_back(i * nr + k);
      lists("positions of the functions among the dummy functions", b.pure_indices(), pure);
      std::map<Eigen::Index, Eigen::Index> back;
      for (size_t i = 0; i < pure.size(); i++) back[pure[i]] = i;
      helfem::Matrix R = helfem::Matrix::NullaryExpr(N, N, [](Eigen::Index, Eigen::Index) { return H::rr(-1, 1); });
      helfem::Matrix X = b.expand_boundaries(R);
      H::ok(X.rows() == (Eigen::Index)ND && X.cols() == (Eigen::Index)ND, "expanded matrix has the dummy dimension");
      for (size_t i = 0; i < ND; i++)
        for (size_t j = 0; j < ND; j++) {
          double w = back.count(i) && back.count(j) ? R(back[i], back[j]) : 0;
          H::ok(X(i, j) == w, "expansion puts each element at the dummy positions of its functions", H::str("(%zu,%zu)", i, j));
        }
      H::ok(b.remove_boundaries(X) == R, "removing the boundaries undoes the expansion");
      helfem::Matrix Y = helfem::Matrix::NullaryExpr(ND, ND, [](Eigen::Index, Eigen::Index) { return H::rr(-1, 1); });
      helfem::Matrix Z = b.remove_boundaries(Y);
      for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) H::ok(Z(i, j) == Y(pure[i], pure[j]), "removal keeps the elements of the functions", H::str("(%zu,%zu)", i, j));
      std::vector<int> cover(N, 0);
      for (size_t e = 0; e < b.get_rad_Nel(); e++) {
        size_t w = b.get_rad_bf(e).cols(), first = e * (nn - 1);
        IL ref, real;
        for (size_t i = 0; i < na; i++) for (size_t k = 0; k < w; k++) ref.push_back(i * nr + first + k);
        lists("dummy functions of one element", b.bf_list_dummy(e), ref);
        for (auto i : ref) if (back.count(i)) real.push_back(back[i]);
        lists("functions of one element", b.bf_list(e), real);
        for (auto i : real) cover[i]++;
        for (int mm = -3; mm <= 3; mm++) {
          IL rm;
          for (size_t i = 0; i < na; i++) if (m[i] == mm) for (size_t k = 0; k < w; k++) rm.push_back(i * nr + first + k);
          lists("dummy functions of one element and m", b.bf_list_dummy(e, mm), rm);
        }
      }
      for (size_t i = 0; i < N; i++) H::ok(cover[i] >= 1, "every function lives on some element", H::str("function %zu", i));
      H::ok(H::throws([&] { b.dummy_idx_to_real_idx(IL(1, (Eigen::Index)ND)); }), "an index outside the dummy basis is refused");
      helfem::Matrix T = b.kinetic(), V = b.nuclear();
      for (size_t i = 0; i < na; i++)
        for (size_t j = 0; j < na; j++)
          if (m[i] != m[j]) {
            auto z = [&](const helfem::Matrix &A) { return A.block(off[i], off[j], sz(i), sz(j)).size() == 0 || A.block(off[i], off[j], sz(i), sz(j)).cwiseAbs().maxCoeff() == 0; };
            H::ok(z(S) && z(T) && z(V), "operators do not couple different m", H::str("channels %zu %zu", i, j));
          }
    });
  }
}

int main(int argc, char **argv) {
  H::init();
  enumerations(H::thorough ? 2000 : 200);
  atomic_basis(H::thorough ? 600 : 60);
  diatomic_basis(H::thorough ? 300 : 30);
  return H::finish();
}
