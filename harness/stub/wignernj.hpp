// Stand-in for libwignernj, which is not installed here (a trusted external dependency of the
// code under verification): Gaunt integrals from the Racah formula in long double.
#pragma once
#include <cmath>
#include <cstdlib>
namespace wignernj {
inline long double stub_fact(int n) { long double f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
inline long double stub_3j(int a, int b, int c, int x, int y, int z) {
  if (x + y + z || std::abs(x) > a || std::abs(y) > b || std::abs(z) > c || c > a + b || c < std::abs(a - b)) return 0;
  long double s = 0;
  for (int k = 0; k <= a + b + c; k++) {
    int d[5] = {c - b + x + k, c - a - y + k, a + b - c - k, a - x - k, b + y - k};
    bool bad = false;
    for (int q : d) bad |= q < 0;
    if (bad) continue;
    long double t = stub_fact(k);
    for (int q : d) t *= stub_fact(q);
    s += (k % 2 ? -1 : 1) / t;
  }
  s *= sqrtl(stub_fact(a + b - c) * stub_fact(a - b + c) * stub_fact(-a + b + c) / stub_fact(a + b + c + 1));
  s *= sqrtl(stub_fact(a + x) * stub_fact(a - x) * stub_fact(b + y) * stub_fact(b - y) * stub_fact(c + z) * stub_fact(c - z));
  return (a - b - z) % 2 ? -s : s;
}
template <typename T> inline T gaunt(int tl1, int tm1, int tl2, int tm2, int tl3, int tm3) {
  int a = tl1 / 2, b = tl2 / 2, c = tl3 / 2, x = tm1 / 2, y = tm2 / 2, z = tm3 / 2;
  return (T)(sqrtl((2 * a + 1) * (2 * b + 1) * (2 * c + 1) / (4 * M_PIl)) * stub_3j(a, b, c, 0, 0, 0) * stub_3j(a, b, c, x, y, z));
}
}
