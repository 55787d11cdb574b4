// C07: element-boundary grids.
#include "h.h"
#include <grid.h>
#include <helfem.h>
#include <atomic/basis.h>
using namespace helfem;
typedef long double R;
template <class T> static R formula(int kind, int i, int N, T rmax, T z) {
  R s = (R)i / N;
  switch (kind) {
  case 1: return rmax * s;
  case 2: return rmax * s * s;
  case 3: return rmax * powl(s, z);
  case 4: return expl(powl(s * powl(logl((R)rmax + 1), 1 / (R)z), z)) - 1;
  default: { R q = z; return i == 0 ? 0 : rmax * powl(q, N - i) * (1 - powl(q, i)) / (1 - powl(q, N)); }
  }
}
template <class V> static void shape(const V &g, R rmax, long n, bool exact) {
  if (!H::ok(g.size() == n, "one more boundary than elements", H::str("got %ld expected %ld", (long)g.size(), n))) return;
  H::ok(g(0) == 0, "grid starts exactly at zero", H::str("got %.17g", (double)g(0)));
  if (exact) H::ok((R)g(n - 1) == rmax, "grid ends exactly at the requested radius", H::str("got %.17g expected %.17Lg", (double)g(n - 1), rmax));
  else H::near((double)g(n - 1), (double)rmax, 4e-16, "grid ends at the requested radius", "", -(double)rmax);
  for (long i = 0; i + 1 < g.size(); i++) if (!H::ok(g(i) < g(i + 1), "boundaries increase strictly", H::str("boundary %ld %.17g %.17g", i, (double)g(i), (double)g(i + 1)))) break;
}
template <class T> static void basic(int M) {
  for (int it = 0; it < M; it++) H::guard([&] {
    int kind = H::ri(1, 5), N = H::ri(0, 3) == 0 ? 1 : H::ri(1, 40);
    T rmax = T(H::ri(0, 2) == 0 ? H::rr(1e-6, 1e-2) : H::rr(0.5, 100)), z = kind == 5 ? T(H::rr(0.3, 0.95)) : T(H::rr(0.5, 3));
    H::kase("T=%s grid kind=%d elements=%d rmax=%.17g zexp=%.17g", sizeof(T) == 8 ? "double" : "long double", kind, N, (double)rmax, (double)z);
    Vec<T> g = grid::get_grid<T>(rmax, N, kind, z);
    shape(g, rmax, N + 1, true);
    if (g.size() == N + 1) for (int i = 0; i <= N; i++) {
      R f = formula<T>(kind, i, N, rmax, z);
      H::near((double)g(i), (double)f, 1e-11, "boundary follows the stated formula", H::str("boundary %d", i), -std::max<double>(kind == 4 ? 1e-3 : 1e-30, std::max((double)fabsl(f), 1e-3 * (double)rmax)));
    }
    if (sizeof(T) == 8) {
      Vector u = utils::get_grid((double)rmax, N, kind, (double)z);
      H::ok(u.size() == g.size(), "library wrapper returns the same grid");
      for (long i = 0; i < u.size() && i < g.size(); i++) H::ok(u(i) == (double)g(i), "library wrapper returns the same grid", H::str("boundary %ld", i));
      Vector n = atomic::basis::normal_grid(N, (double)rmax, kind, (double)z);
      H::ok(n.size() == u.size() && n == u, "plain atomic grid is the library grid");
    }
  });
  for (int k : {-3, -1, 0, 6, 7, 100}) { H::kase("grid kind=%d", k); H::ok(H::throws([&] { grid::get_grid<T>(T(10), 5, k, T(2)); }), "unknown grid kind is rejected"); }
  for (double z : {-1., 0., 1., 1.5}) { H::kase("geometric grid ratio=%g", z); H::ok(H::throws([&] { grid::get_grid<T>(T(10), 5, 5, T(z)); }), "geometric ratio outside (0,1) is rejected"); }
}
static void composed(int M) {
  using namespace modelpotential;
  for (int it = 0; it < M; it++) H::guard([&] {
    int g = H::ri(1, 4), g0 = H::ri(1, 4), N = H::ri(1, 10), N0 = H::ri(0, 5);
    double rmax = H::rr(5, 60), z = H::rr(0.8, 2.5), z0 = H::rr(0.8, 2.5), Rrms = std::pow(10, H::rr(-5, -1));
    nuclear_model_t models[] = {POINT_NUCLEUS, GAUSSIAN_NUCLEUS, SPHERICAL_NUCLEUS, HOLLOW_NUCLEUS, REGULARIZED_NUCLEUS};
    nuclear_model_t m = models[H::ri(0, 4)];
    bool fin = m != POINT_NUCLEUS && m != REGULARIZED_NUCLEUS;
    int Z = H::ri(0, 20), Zl = 0, Zr = 0;
    double Rh = H::rr(0.4, 3);
    if (H::ri(0, 2) == 0) { Zl = H::ri(0, 10); Zr = H::ri(Zl ? 0 : 1, 10); N0 = std::max(N0, 1); }
    bool add = H::rb();
    double sc = H::rr(0.1, rmax * 1.2);
    H::kase("form_grid model=%d Rrms=%.17g Nelem=%d Rmax=%.17g igrid=%d zexp=%.17g Nelem0=%d igrid0=%d zexp0=%.17g Z=%d Zl=%d Zr=%d Rhalf=%.17g add=%d radius=%.17g", (int)m, Rrms, N, rmax, g, z, N0, g0, z0, Z, Zl, Zr, Rh, add, sc);
    if (fin && (Zl || Zr)) {
      H::ok(H::throws([&] { atomic::basis::form_grid(m, Rrms, N, rmax, g, z, N0, g0, z0, Z, Zl, Zr, Rh, add, sc); }), "off-centre nuclei with a finite nucleus are rejected");
      return;
    }
    Vector b = atomic::basis::form_grid(m, Rrms, N, rmax, g, z, N0, g0, z0, Z, Zl, Zr, Rh);
    Vector b0 = atomic::basis::form_grid(m, Rrms, N, rmax, g, z, N0, g0, z0, Z, Zl, Zr, Rh, false, sc);
    H::ok(b.size() == b0.size() && b == b0, "no confinement radius means the plain grid");
    auto has = [&](const Vector &v, double r, double tol) { for (long i = 0; i < v.size(); i++) if (std::fabs(v(i) - r) <= tol) return true; return false; };
    H::ok(b(0) == 0, "grid starts exactly at zero");
    H::near(b(b.size() - 1), rmax, 1e-15, "grid ends at the requested radius", "", -rmax);
    for (long i = 0; i + 1 < b.size(); i++) if (!H::ok(b(i) < b(i + 1), "boundaries increase strictly", H::str("boundary %ld", i))) break;
    if (fin) {
      double rn = m == HOLLOW_NUCLEUS ? Rrms : m == SPHERICAL_NUCLEUS ? std::sqrt(5. / 3.) * Rrms : 3 * Rrms;
      if (N0) {
        Vector in = utils::get_grid(rn, N0, g0, z0);
        H::ok(b.size() > in.size(), "the nuclear grid is part of the grid");
        for (long i = 0; i < in.size() && i < b.size(); i++) H::near(b(i), in(i), 1e-14, "the nucleus is resolved by its own grid", H::str("boundary %ld", i), -in(i));
        Vector out = utils::get_grid(1.0, N, g, z);
        H::ok(b.size() >= N + N0 + 1, "all requested elements are present");
      } else H::ok(b.size() == N + 1, "one more boundary than elements");
    } else if (Zl || Zr) {
      H::ok(has(b, Rh, 1e-13), "boundary at the off-centre nucleus");
      H::ok(b.size() == N + N0 * (Z ? 2 : 1) + 1, "all requested elements are present", H::str("%ld boundaries", (long)b.size()));
      if (Z) H::ok(has(b, Z * Rh / (Z + std::max(Zl, Zr)), 1e-13), "boundary between the central and off-centre nuclei");
    } else H::ok(b == utils::get_grid(rmax, N, g, z), "plain grid for a central point nucleus");
    if (add) {
      int w = H::ri(0, 3);
      if (w == 0) sc = b(H::ri(0, b.size() - 1));
      if (w == 1) {
        double x = b(H::ri(0, b.size() - 1));
        sc = H::rb() ? std::nextafter(x, 1e9) : x * (1 + (H::rb() ? 1 : -1) * std::pow(10., -H::ri(2, 15)));
      }
      Vector c = atomic::basis::form_grid(m, Rrms, N, rmax, g, z, N0, g0, z0, Z, Zl, Zr, Rh, true, sc);
      bool pres = has(b, sc, 0);
      H::ok(c.size() == b.size() + (pres ? 0 : 1), "confinement radius adds one boundary unless present");
      H::ok(has(c, sc, 0), "confinement radius is a boundary");
      for (long i = 0; i < b.size(); i++) H::ok(has(c, b(i), 0), "existing boundaries are kept");
      for (long i = 0; i + 1 < c.size(); i++) H::ok(c(i) < c(i + 1), "boundaries increase strictly after insertion");
    }
  });
}
int main() {
  H::init();
  int k = H::thorough ? 20 : 1;
  basic<double>(1500 * k); basic<long double>(500 * k);
  composed(800 * k);
  return H::finish();
}
