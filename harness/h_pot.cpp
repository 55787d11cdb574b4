// C13 nuclear and model potentials, against independent formulas in long double
#include "h.h"
#include <sstream>
#include "model_potential.h"
#include "gsz.h"
#include "sap.h"
#include "PointNucleus.h"
#include "GaussianNucleus.h"
#include "SphericalNucleus.h"
#include "HollowNucleus.h"
#include "RegularizedNucleus.h"
using namespace helfem;
using namespace helfem::modelpotential;
typedef long double R;
static const R PIl = 3.14159265358979323846264338327950288L;
static double tol(double) { return 1e-13; }
static long double tol(long double) { return 1e-15L; }
template <class T> static void eqv(T a, R b, double t, const char *c, const std::string &x = "") {
  H::ok(std::fabs((R)a - b) <= t * std::max((R)1e-300L, std::fabs(b)), c, x + H::str(" got %.17Lg expected %.17Lg", (R)a, b));
}
template <class T> static T rad(T R0) {
  switch (H::ri(0, 7)) {
  case 0: return R0;
  case 1: return R0 * (1 - std::numeric_limits<T>::epsilon());
  case 2: return R0 * (1 + std::numeric_limits<T>::epsilon());
  case 3: return R0 * T(H::rr(0, 1));
  case 4: return R0 * T(H::rr(1, 3));
  case 5: return R0 * T(std::pow(10, H::rr(-6, 0)));
  default: return T(std::pow(10, H::rr(-6, 2)));
  }
}
template <class T> static void nuclei(int M) {
  T tl = tol(T(0));
  for (int it = 0; it < M; it++) H::guard([&] {
    int Z = H::ri(0, 9) == 0 ? -1 : H::ri(0, 118);
    T Rr = T(std::pow(10, H::rr(-6, 0)));
    {
      T r = rad(Rr);
      H::kase("T=%d bytes point nucleus Z=%d r=%.17Lg", (int)sizeof(T), Z, (R)r);
      PointNucleusT<T> p(Z);
      eqv(p.V(r), -(R)Z / r, tl, "V = -Z/r");
      H::ok(p.breakpoints(T(0), T(10)).empty(), "the point nucleus has no breakpoints");
    }
    {
      T r = rad(Rr);
      H::kase("T=%d bytes hollow nucleus Z=%d R=%.17Lg r=%.17Lg", (int)sizeof(T), Z, (R)Rr, (R)r);
      HollowNucleusT<T> p(Z, Rr);
      eqv(p.V(r), -(R)Z / std::max((R)r, (R)Rr), tl, "constant inside the shell, -Z/r outside");
      H::ok(p.get_R() == Rr, "shell radius");
      T R2 = Rr * 3; p.set_R(R2);
      eqv(p.V(r), -(R)Z / std::max((R)r, (R)R2), tl, "radius can be changed");
      p.set_R(Rr);
      T a = Rr * T(H::rr(0, 2)), b = a + Rr * T(H::rr(0, 2));
      if (H::ri(0, 3) == 0) a = Rr; else if (H::ri(0, 3) == 0) b = Rr;
      auto bp = p.breakpoints(a, b);
      bool in = Rr > a && Rr < b;
      H::ok(bp.size() == (in ? 1u : 0u) && (!in || bp[0] == Rr), "the shell radius is a breakpoint exactly when strictly inside", H::str("a=%.17Lg b=%.17Lg", (R)a, (R)b));
    }
    {
      SphericalNucleusT<T> p(Z, Rr);
      T R0 = p.get_R0(), r = rad(R0);
      H::kase("T=%d bytes spherical nucleus Z=%d Rrms=%.17Lg r=%.17Lg", (int)sizeof(T), Z, (R)Rr, (R)r);
      eqv(R0, sqrtl(5.0L / 3.0L) * (R)Rr, tl, "sphere radius is sqrt(5/3) times the rms radius");
      R e = r >= R0 ? -(R)Z / r : -(R)Z / (2 * (R)R0) * (3 - (R)r / R0 * (R)r / R0);
      eqv(p.V(r), e, 4 * tl, "uniformly charged sphere potential");
      T a = R0 * T(H::rr(0, 2)), b = a + R0 * T(H::rr(0, 2));
      if (H::ri(0, 3) == 0) a = R0; else if (H::ri(0, 3) == 0) b = R0;
      auto bp = p.breakpoints(a, b);
      bool in = R0 > a && R0 < b;
      H::ok(bp.size() == (in ? 1u : 0u) && (!in || bp[0] == R0), "the sphere radius is a breakpoint exactly when strictly inside");
      eqv(p.V(T(0)), -1.5L * Z / R0, 4 * tl, "finite value at the origin");
      T R2 = R0 / 2; p.set_R0(R2);
      eqv(p.V(R0), -(R)Z / R0, 4 * tl, "radius can be changed");
    }
    {
      GaussianNucleusT<T> p(Z, Rr);
      T mu = p.get_mu();
      T rc = T(powl(42 * (R)std::numeric_limits<T>::epsilon(), 1.0L / 6)) / mu, r = H::rb() ? rad(rc) : rad(Rr);
      H::kase("T=%d bytes gaussian nucleus Z=%d Rrms=%.17Lg r=%.17Lg", (int)sizeof(T), Z, (R)Rr, (R)r);
      eqv(mu, sqrtl(1.5L) / (R)Rr, tl, "exponent is sqrt(3/2)/Rrms");
      R x = (R)mu * r, e = x < 1e-3L ? -(R)Z * mu * 2 / sqrtl(PIl) * (1 - x * x / 3 + x * x * x * x / 10) : -(R)Z * erfl(x) / r;
      eqv(p.V(r), e, 10 * tl, "V = -Z erf(mu r)/r");
      eqv(p.V(T(0)), -(R)Z * 2 / sqrtl(PIl) * (R)mu, 10 * tl, "finite value at the origin");
      p.set_mu(mu / 4);
      x /= 4;
      e = x < 1e-3L ? -(R)Z * mu / 4 * 2 / sqrtl(PIl) * (1 - x * x / 3 + x * x * x * x / 10) : -(R)Z * erfl(x) / r;
      eqv(p.V(r), e, 10 * tl, "exponent can be changed");
    }
  });
}
static R dhelp(R a, R b, R r) { // V of Gygi's potential from the definition
  R E = expl(-a * a * r * r), F = erfl(a * r), c = 2 * a / sqrtl(PIl);
  R dF = c * E, dE = -2 * a * a * r * E, ddF = c * dE, ddE = -2 * a * a * E - 2 * a * a * r * dE;
  R h1 = -F - r * dF - b * dE, h2 = -2 * dF - r * ddF - b * ddE;
  return -0.5L + (r > 0 ? h1 / r : -2 * c + 2 * a * a * b) + (h2 + h1 * h1) / 2;
}
template <class T> static void regularized(int M) {
  for (int it = 0; it < M; it++) H::guard([&] {
    int Z = H::ri(1, 30);
    T a = T(it < 4 ? it + 1 : H::rr(1, 5));
    H::kase("T=%d bytes regularized nucleus Z=%d a=%.17Lg", (int)sizeof(T), Z, (R)a);
    std::unique_ptr<RegularizedNucleusT<T>> p;
    try { p.reset(new RegularizedNucleusT<T>(Z, a)); } catch (const std::exception &) { return; }
    H::ok(p->get_a() == a, "size parameter");
    R b = p->get_b();
    // norm of phi by composite Gauss-Legendre (3 point) quadrature
    R n = 0, hh = 1e-3L;
    for (int k = 0; k < 30000; k++) for (int g = -1; g <= 1; g++) {
      R r = (k + 0.5L) * hh + g * hh / 2 * sqrtl(0.6L), w = (g ? 5.0L : 8.0L) / 18 * hh;
      n += w * 4 * r * r * expl(2 * (-r * erfl(a * r) - b * expl(-(R)a * a * r * r)));
    }
    H::ok(std::fabs(n - 1) < 1e-9, "the regularized 1s function is normalised", H::str("norm %.15Lg b=%.15Lg", n, b));
    R lim = cbrtl((R)std::numeric_limits<T>::epsilon()) / Z;
    for (int k = 0; k < 60; k++) {
      T r = k == 0 ? T(0) : k < 10 ? T(lim * powl(10, H::rr(-2, 2))) : T(std::pow(10, H::rr(-3, 1)) / Z);
      R v = p->V(r), e = (R)Z * Z * dhelp(a, b, (R)Z * r), c = (R)Z * Z * (1 + (r > 0 ? std::numeric_limits<T>::epsilon() / (Z * r) : 0) * 10);
      H::ok(std::fabs(v - e) <= (sizeof(T) == 8 ? 1e-13 : 1e-15) * 200 * c, "V = Z^2 (-1/2 + (r phi)''/(2 r phi))", H::str("r=%.17Lg got %.17Lg expected %.17Lg", (R)r, v, e));
    }
  });
}
static const double dGSZ[] = {1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0.708, 0.575, 0.500, 0.561, 0.621, 0.729, 0.817, 0.868, 0.885, 0.881, 0.862, 1.006, 1.154, 1.116, 1.060, 0.996, 0.837, 0.866, 0.807, 0.751, 0.700, 0.606, 0.612, 0.631, 0.649, 0.663, 0.675, 0.684, 0.689, 0.744, 0.798, 0.855, 0.866, 0.831, 0.825, 0.855, 0.803, 0.788, 0.737, 0.754, 0.775, 0.810, 0.841, 0.870, 0.896, 0.919, 0.940, 1.022, 1.108, 1.150, 1.081, 0.970, 0.938, 0.905, 0.873, 0.842, 0.862, 0.830, 0.754, 0.728, 0.702, 0.677, 0.654, 0.665, 0.672, 0.676, 0.679, 0.680, 0.680, 0.679, 0.661, 0.657, 0.671, 0.690, 0.708, 0.726, 0.744, 0.761, 0.777, 0.818, 0.859, 0.899, 0.927, 0.887, 0.880, 0.872, 0.832, 0.822, 0.842, 0.830, 0.790, 0.778, 0.766, 0.754, 0.742, 0.755};
static R gsz(R r, R Z, R d, R Hh) { return 1 + (Z - 1) / (1 + expm1l(r / d) * Hh); }
static R tf(R r, int Z) {
  R x = r * cbrtl(128 * (R)Z / (9 * PIl * PIl)), s = sqrtl(x);
  R b = 1 + 0.7280642371L * s - 0.5430794693L * x * expl(-0.3612163121L * s);
  return Z * b * b * expl(-2 * 0.7280642371L * s);
}
static void screened(int M) {
  for (int Z = 0; Z <= 103; Z++) H::guard([&] {
    H::kase("GSZ parameters Z=%d", Z);
    double d, h;
    GSZ::GSZ_parameters(Z, d, h);
    R de = Z ? dGSZ[Z - 1] : 1.0L, he = Z > 1 ? de * powl(Z - 1, 0.4L) : 0;
    H::ok(d == (double)de, "tabulated d of the element", H::str("got %.17g expected %.17Lg", d, de));
    H::ok(std::fabs(h - he) <= 1e-14 * he, "H = d (Z-1)^0.4, no screening for hydrogen and dummy centres", H::str("got %.17g expected %.17Lg", h, he));
    GSZAtom at(Z);
    TFAtom ta(Z);
    Vector rs(10);
    for (int k = 0; k < 10; k++) rs(k) = std::pow(10, H::rr(-6, 1.3));
    Vector zg = GSZ::Z_GSZ(rs, Z), zt = GSZ::Z_thomasfermi(rs, Z);
    H::ok(zg.size() == 10 && zt.size() == 10, "one value per radius");
    for (int k = 0; k < 10; k++) {
      double r = rs(k);
      R g = gsz(r, Z, de, he), t = tf(r, Z);
      auto x = H::str("r=%.17g", r);
      H::near(at.V(r) * r, (double)-g, 1e-12, "GSZ potential is -Zeff/r", x);
      H::near(zg(k), (double)g, 1e-12, "GSZ effective charge", x);
      H::near(GSZ::Z_GSZ(r, Z, d, h), (double)g, 1e-12, "GSZ effective charge", x);
      H::near(ta.V(r) * r, (double)-t, 1e-12, "Thomas-Fermi potential is -Zeff/r", x);
      H::near(zt(k), (double)t, 1e-12, "Thomas-Fermi effective charge", x);
    }
    GSZAtom au(Z, 0.3, 0.7);
    H::near(au.V(0.5), (double)(-gsz(0.5L, Z, 0.3L, 0.7L) / 0.5L), 1e-12, "explicit GSZ parameters are used");
  });
  for (int Z = 1; Z <= 118; Z++) H::guard([&] {
    H::kase("SAP effective charge Z=%d", Z);
    SAPAtom s(Z);
    H::near(sap_effective_charge(Z, 0.0), Z, 1e-12, "full charge at the nucleus");
    for (int k = 0; k < M; k++) {
      double r = std::pow(10, H::rr(-8, 2)), z = sap_effective_charge(Z, r);
      H::ok(z >= -0.05 * Z && z <= Z * (1 + 1e-9), "effective charge lies between the tail and the nuclear charge", H::str("r=%.17g Zeff=%.17g", r, z));
      H::near(s.V(r) * r, -z, 1e-12, "SAP potential is -Zeff/r");
      double e = r * 1e-7, z1 = sap_effective_charge(Z, r - e), z2 = sap_effective_charge(Z, r + e);
      H::ok(std::fabs(z1 - z) + std::fabs(z2 - z) < 1e-3 * Z, "effective charge is continuous", H::str("r=%.17g", r));
    }
    H::ok(std::fabs(sap_effective_charge(Z, 1000.0)) < 0.2, "no charge far outside the neutral atom");
  });
  for (int Z : {-5, -1, 0, 119, 500}) { H::kase("SAP effective charge Z=%d", Z); H::ok(sap_effective_charge(Z, 1.0) == 0, "no effective charge outside the table"); }
}
static void factory() {
  using namespace modelpotential;
  for (int it = 0; it < 200; it++) H::guard([&] {
    int Z = H::ri(1, 100);
    double Rr = std::pow(10, H::rr(-4, -1)), r = std::pow(10, H::rr(-5, 1));
    H::kase("nuclear model factory Z=%d Rrms=%.17g r=%.17g", Z, Rr, r);
    std::unique_ptr<ModelPotential> p(get_nuclear_model<double>(POINT_NUCLEUS, Z, Rr)), g(get_nuclear_model<double>(GAUSSIAN_NUCLEUS, Z, Rr)), h(get_nuclear_model<double>(HOLLOW_NUCLEUS, Z, Rr)), s(get_nuclear_model<double>(SPHERICAL_NUCLEUS, Z, Rr));
    H::ok(p->V(r) == PointNucleus(Z).V(r), "point model");
    H::ok(g->V(r) == GaussianNucleus(Z, Rr).V(r), "gaussian model");
    H::ok(h->V(r) == HollowNucleus(Z, Rr).V(r), "hollow model");
    H::ok(s->V(r) == SphericalNucleus(Z, Rr).V(r), "spherical model");
    if (it < 3) {
      std::unique_ptr<ModelPotential> q(get_nuclear_model<double>(REGULARIZED_NUCLEUS, Z, 2.0));
      H::ok(q->V(r) == RegularizedNucleus(Z, 2.0).V(r), "regularized model");
    }
    H::ok(H::throws([&] { get_nuclear_model<double>(NOSUCH_NUCLEUS, Z, Rr); }), "unknown models are rejected");
  });
}
int main() {
  H::init();
  int k = H::thorough ? 20 : 1;
  nuclei<double>(3000 * k); nuclei<long double>(1000 * k);
  regularized<double>(H::thorough ? 20 : 4); regularized<long double>(H::thorough ? 4 : 1);
  screened(20 * k);
  factory();
  return H::finish();
}
