// C11 exchange permutation, C14 electron counts, C15 element tables and GSZ bounds
#include "h.h"
#include <sstream>
#include "utils.h"
#include "scf_helpers.h"
#include "elements.h"
#include "gsz.h"
using namespace helfem;
template <class T> static void c11(int M) {
  for (int it = 0; it < M; it++) H::guard([&] {
    int n[4];
    for (int &x : n) x = H::ri(1, it < M / 4 ? 3 : 7);
    if (it % 7 == 0) n[1] = n[0];
    H::kase("exchange_tei T=%d bytes Ni=%d Nj=%d Nk=%d Nl=%d", (int)sizeof(T), n[0], n[1], n[2], n[3]);
    Mat<T> t(n[0] * n[1], n[2] * n[3]);
    for (long i = 0; i < t.size(); i++) t.data()[i] = T(i + 1) + T(H::ri(0, 1000)) / T(2048);
    Mat<T> k = utils::exchange_tei<T>(t, n[0], n[1], n[2], n[3]);
    if (!H::ok(k.rows() == n[1] * n[2] && k.cols() == n[0] * n[3], "rows are the (j,k) pairs, columns the (i,l) pairs")) return;
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int a = 0; a < n[2]; a++) for (int l = 0; l < n[3]; l++)
      H::ok(k(a * n[1] + j, l * n[0] + i) == t(j * n[0] + i, l * n[2] + a), "every (jk|il) entry is the (ij|kl) entry", H::str("i=%d j=%d k=%d l=%d", i, j, a, l));
    Mat<T> tr = k.transpose();   // (il|jk) ordered table
    H::ok(H::throws([&] { Mat<T> b(n[0] * n[1] + 1, n[2] * n[3]); b.setZero(); utils::exchange_tei<T>(b, n[0], n[1], n[2], n[3]); }), "wrong number of rows is rejected");
    H::ok(H::throws([&] { Mat<T> b(n[0] * n[1], n[2] * n[3] + 1); b.setZero(); utils::exchange_tei<T>(b, n[0], n[1], n[2], n[3]); }), "wrong number of columns is rejected");
    if (n[2] * n[3] != n[0] * n[1]) H::ok(H::throws([&] { utils::exchange_tei<T>(t, n[2], n[3], n[0], n[1]); }), "swapped bra and ket ranges are rejected");
  });
}
static void c14() {
  int lim = H::thorough ? 60 : 25;
  for (int Z = 0; Z <= lim; Z++) for (int Q = -6; Q <= Z + 3; Q++) for (int M = -2; M <= 12; M++) H::guard([&] {
    H::kase("parse_nela_nelb nela=0 nelb=0 Q=%d M=%d Z=%d", Q, M, Z);
    int a = 0, b = 0, q = Q, m = M, n = Z - Q;
    bool possible = M >= 1 && n - (M - 1) >= 0 && (n - (M - 1)) % 2 == 0, threw = false;
    try { scf::parse_nela_nelb(a, b, q, m, Z); } catch (const std::exception &) { threw = true; }
    if (!H::ok(threw == !possible, "impossible requests and only those are rejected", threw ? "rejected" : "accepted")) return;
    if (threw) return;
    H::ok(a + b == n, "counts add up to the number of electrons", H::str("nela=%d nelb=%d", a, b));
    H::ok(a - b == M - 1, "counts differ by multiplicity minus one", H::str("nela=%d nelb=%d", a, b));
    H::ok(b >= 0 && a >= b, "counts are non-negative, alpha at least beta", H::str("nela=%d nelb=%d", a, b));
    H::ok(q == Q && m == M, "charge and multiplicity unchanged");
  });
  for (int A = -4; A <= 14; A++) for (int B = -4; B <= 14; B++) for (int Z = 0; Z <= 20; Z += 5) H::guard([&] {
    if (!A && !B) return;
    int q0 = H::ri(-3, 3), m0 = H::ri(-1, 5);
    H::kase("parse_nela_nelb nela=%d nelb=%d Q=%d M=%d Z=%d", A, B, q0, m0, Z);
    int a = A, b = B, q = q0, m = m0;
    bool threw = false;
    try { scf::parse_nela_nelb(a, b, q, m, Z); } catch (const std::exception &) { threw = true; }
    if (!H::ok(threw == (A < B || A < 0 || B < 0), "impossible explicit counts and only those are rejected", threw ? "rejected" : "accepted")) return;
    if (threw) return;
    H::ok(a == A && b == B, "explicit counts unchanged");
    H::ok(q == Z - A - B && m == A - B + 1, "charge and multiplicity follow from the counts", H::str("Q=%d M=%d", q, m));
  });
}
static const char *SYM[] = {"", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U", "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds", "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og"};
static void c15() {
  auto Zof = [](std::string s) { int z; try { z = get_Z(s); } catch (const std::exception &) { z = -999; } return z; };
  auto known = [](std::string s) { for (int z = 1; z <= 118; z++) if (!strcasecmp(s.c_str(), SYM[z])) return z; return -999; };
  for (int z = 1; z <= 118; z++) H::guard([&] {
    std::string s = SYM[z], u = s, l = s;
    for (char &c : u) c = toupper(c);
    for (char &c : l) c = tolower(c);
    H::kase("element %s", SYM[z]);
    H::ok(element_symbols[z] == s, "symbol of the number", element_symbols[z]);
    for (auto &w : {s, u, l}) H::ok(Zof(w) == z, "number of the symbol", w + H::str(" -> %d", Zof(w)));
    H::ok(Zof(std::to_string(z)) == z, "a number stands for itself");
    H::ok(Zof(s + "x") == known(s + "x") && Zof(s + " ") == -999, "words that only start with a symbol are rejected");
  });
  H::kase("empty symbol"); H::ok(Zof("") == 0, "no nucleus"); H::ok(Zof("0") == 0, "no nucleus");
  for (int it = 0; it < (H::thorough ? 20000 : 3000); it++) {
    std::string s;
    for (int n = H::ri(1, 4); n > 0; n--) s += char((H::rb() ? 'a' : 'A') + H::ri(0, 25));
    H::kase("symbol \"%s\"", s.c_str());
    H::ok(Zof(s) == known(s), "unknown symbols and only those are rejected", H::str("got %d", Zof(s)));
  }
  const int sz[] = {1, 3, 5, 11, 13, 19, 21, 31, 37, 39, 49, 55, 57, 71, 81, 87, 89, 103, 113}, sl[] = {0, 0, 1, 0, 1, 0, 2, 1, 0, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1};
  for (int z1 = 0; z1 <= 118; z1++) for (int z2 = 0; z2 <= 118; z2 += (z1 < 3 ? 1 : 13)) {
    H::kase("num_orbs Z1=%d Z2=%d", z1, z2);
    int n[4] = {H::ri(-3, 9), 7, -1, 3}, e[4] = {0, 0, 0, 0};
    num_orbs(z1, z2, n[0], n[1], n[2], n[3]);
    for (int z : {z1, z2}) for (int s = 0; s < 19; s++) if (z >= sz[s]) for (int m = 0; m <= sl[s]; m++) e[m]++;
    for (int m = 0; m < 4; m++) H::ok(n[m] == e[m], "orbitals of the started shells of both atoms", H::str("|m|=%d got %d expected %d", m, n[m], e[m]));
  }
  for (int z : {-2147483647, -1000, -1, 0, 1, 2, 50, 101, 102, 103, 104, 105, 118, 206, 100000, 2147483647}) {
    H::kase("GSZ_parameters Z=%d", z);
    double d = 0, h = 0;
    bool thr = H::throws([&] { GSZ::GSZ_parameters(z, d, h); });
    H::ok(thr == (z < 0 || z > 103), "charges outside the table and only those are rejected", thr ? "rejected" : "accepted");
    if (!thr) H::ok(d > 0.1 && d < 2 && h >= 0 && std::isfinite(h), "parameters read from the table", H::str("d=%g H=%g", d, h));
  }
}
int main(int, char **v) {
  H::init();
  std::string w = v[1];
  if (w == "C11") { int k = H::thorough ? 20 : 1; c11<double>(150 * k); c11<long double>(50 * k); }
  if (w == "C14") c14();
  if (w == "C15") c15();
  return H::finish();
}
