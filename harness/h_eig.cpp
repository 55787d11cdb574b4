// C21 half-inverse overlap and generalized eigenproblems
#include "h.h"
#include <Eigen/QR>
#include <Eigen/Eigenvalues>
#include <algorithm>
#include "utils.h"
#include "scf_helpers.h"
using namespace helfem;
// random symmetric positive-definite matrix with condition about 10^c and row scales 10^+-s
template <class T> static Mat<T> spd(int n, double c, double s) {
  Mat<T> A(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = T(H::rr(-1, 1));
  Eigen::HouseholderQR<Mat<T>> qr(A);
  Mat<T> Q = qr.householderQ();
  Vec<T> d(n);
  for (int i = 0; i < n; i++) d(i) = T(std::pow(10.0, -H::rr(0, c)));
  Mat<T> S = Q * d.asDiagonal() * Q.transpose();
  Vec<T> sc(n);
  for (int i = 0; i < n; i++) sc(i) = T(std::pow(10.0, H::rr(-s, s)));
  S = sc.asDiagonal() * S * sc.asDiagonal();
  return (S + S.transpose()) / T(2);
}
template <class T> static Mat<T> sym(int n, double s) {
  Mat<T> A(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = T(H::rr(-s, s));
  return A + A.transpose().eval();
}
template <class T> static double dev1(const Mat<T> &A) {
  Mat<T> B = A - Mat<T>::Identity(A.rows(), A.cols());
  return (double)B.cwiseAbs().maxCoeff();
}
template <class T> static void invh_(int M, double eps) {
  for (int it = 0; it < M; it++) H::guard([&] {
    int n = it < 8 ? 1 + it / 4 : H::ri(2, 12);
    double c = (it % 3) * 2, s = (it % 4 == 3) ? 4 : (it % 4 == 2 ? 1 : 0);
    bool nearly = it % 5 == 4;
    bool chol = it & 1;
    H::kase("invh T=%d bytes n=%d cond=1e%g scales=1e+-%g chol=%d", (int)sizeof(T), n, c, s, chol);
    Mat<T> S = spd<T>(n, c, s);
    if (nearly) {                                           // functions that are almost normalised
      Vec<T> d = S.diagonal();
      for (int i = 0; i < n; i++) d(i) = T(1 + H::rr(-1, 1) * std::pow(10.0, -H::ri(1, 6))) / std::sqrt(d(i));
      S = (d.asDiagonal() * S * d.asDiagonal()).eval();
    }
    Mat<T> S0 = S;
    Mat<T> X = utils::invh<T>(S, chol);
    if (!H::ok(X.rows() == n && X.cols() == n, "half-inverse has the size of the overlap")) return;
    H::near(dev1<T>(X.transpose() * S0 * X), 0, eps * n * std::pow(10.0, 1.5 * c), "Sinvh^T S Sinvh is the identity");
  });
  H::guard([&] {
    H::kase("invh of an indefinite matrix, Cholesky, T=%d bytes", (int)sizeof(T));
    Mat<T> S = Mat<T>::Identity(3, 3); S(0, 1) = S(1, 0) = T(2);
    bool threw = false; Mat<T> X;
    try { X = utils::invh<T>(S, true); } catch (const std::exception &) { threw = true; }
    H::ok(threw, "an overlap that is not positive definite is rejected by the Cholesky orthonormalisation");
  });
}
static void eig(int M) {
  for (int it = 0; it < M; it++) H::guard([&] {
    int n = it < 4 ? 1 + it / 2 : H::ri(2, 12);
    H::kase("eig_gsym n=%d it=%d", n, it);
    Matrix S = spd<double>(n, 1, it % 3 ? 0.5 : 0), F = sym<double>(n, it % 4 == 1 ? 100 : 2);
    if (it % 5 == 2) F = S * H::rr(-3, 3);                 // all eigenvalues equal
    Matrix X = utils::invh<double>(S, it & 1);
    Vector E; Matrix C;
    scf::eig_gsym(E, C, F, X);
    if (!H::ok(E.size() == n && C.rows() == n && C.cols() == n, "one solution per basis function")) return;
    double sc = 1 + F.cwiseAbs().maxCoeff() * 100;
    H::near(dev1<double>(C.transpose() * S * C), 0, 1e-9, "eigenvectors are overlap-orthonormal");
    H::near((F * C - S * C * E.asDiagonal()).cwiseAbs().maxCoeff() / sc, 0, 1e-9, "F C = S C E");
    for (int i = 1; i < n; i++) H::ok(E(i) >= E(i - 1), "eigenvalues ascend", H::str("i=%d", i));
    // fewer columns than functions: projected problem
    if (n > 2) {
      int m = H::ri(1, n - 1);
      Matrix Y = X.leftCols(m);
      scf::eig_gsym(E, C, F, Y);
      if (!H::ok(E.size() == m && C.rows() == n && C.cols() == m, "one solution per column of the half-inverse")) return;
      H::near(dev1<double>(C.transpose() * S * C), 0, 1e-9, "projected eigenvectors are overlap-orthonormal");
      H::near((Y.transpose() * (F * C - S * C * E.asDiagonal())).cwiseAbs().maxCoeff() / sc, 0, 1e-9, "projected eigenvalue equation");
    }
  });
}
static void sub(int M) {
  for (int it = 0; it < M; it++) H::guard([&] {
    int nb = H::ri(1, 4);
    std::vector<int> sz(nb);
    int n = 0;
    for (int &x : sz) n += x = H::ri(1, 5);
    std::vector<Eigen::Index> perm(n);
    for (int i = 0; i < n; i++) perm[i] = i;
    bool shuffled = it % 3;
    if (shuffled) std::shuffle(perm.begin(), perm.end(), H::rng);
    H::kase("eig_gsym_sub n=%d blocks=%d first=%d shuffled=%d it=%d", n, nb, sz[0], shuffled, it);
    std::vector<std::vector<Eigen::Index>> idx(nb);
    int o = 0;
    for (int b = 0; b < nb; b++) for (int i = 0; i < sz[b]; i++) idx[b].push_back(perm[o++]);
    Matrix S = Matrix::Zero(n, n), F = Matrix::Zero(n, n), X = Matrix::Zero(n, n);
    std::vector<double> Es; Matrix Call = Matrix::Zero(n, n);
    for (int b = 0; b < nb; b++) {
      Matrix Sb = spd<double>(sz[b], 1, 0.3), Fb = sym<double>(sz[b], b % 2 ? 10 : 2);
      if (it % 4 == 1) Fb -= 30 * b * Sb;                    // later blocks lie lower
      if (it % 4 == 2) Fb = Sb * -1.5;                        // degenerate across blocks
      if (it % 4 == 3) Fb = Sb * (-1.5 + std::pow(10.0, -H::rr(3, 11)) * H::rr(-1, 1));   // almost degenerate
      Matrix Xb = utils::invh<double>(Sb, false);
      S(idx[b], idx[b]) = Sb; F(idx[b], idx[b]) = Fb; X(idx[b], idx[b]) = Xb;
      Vector e; Matrix c;
      Eigen::GeneralizedSelfAdjointEigenSolver<Matrix> es(Fb, Sb);
      for (int i = 0; i < sz[b]; i++) Es.push_back(es.eigenvalues()(i));
    }
    std::sort(Es.begin(), Es.end());
    Vector E; Matrix C;
    scf::eig_gsym_sub(E, C, F, X, idx, false);
    if (!H::ok(E.size() == n && C.rows() == n && C.cols() == n, "one solution per basis function")) return;
    double sc = 1 + F.cwiseAbs().maxCoeff() * 100;
    for (int i = 0; i < n; i++) H::near(E(i) / sc, Es[i] / sc, 1e-9, "block solutions are those of the full problem, ascending", H::str("i=%d", i));
    for (int i = 1; i < n; i++) H::ok(E(i) >= E(i - 1), "eigenvalues of the block solutions ascend", H::str("i=%d %.17g %.17g", i, E(i - 1), E(i)));
    H::near(dev1<double>(C.transpose() * S * C), 0, 1e-8, "block eigenvectors are overlap-orthonormal");
    H::near((F * C - S * C * E.asDiagonal()).cwiseAbs().maxCoeff() / sc, 0, 1e-9, "F C = S C E for the block solutions");
    for (int i = 0; i < n; i++) {
      int hit = 0;
      for (int b = 0; b < nb; b++) { double x = 0; for (auto j : idx[b]) x += std::fabs(C(j, i)); hit += x > 1e-12; }
      H::ok(hit == 1, "every orbital lies in one block", H::str("orbital %d is in %d", i, hit));
    }
    if (nb > 1) {
      auto bad = idx; bad.pop_back();
      H::ok(H::throws([&] { scf::eig_gsym_sub(E, C, F, X, bad, false); }), "a block list that misses functions is rejected");
    }
  });
}
int main() {
  H::init();
  int M = H::thorough ? 400 : 80;
  invh_<double>(M, 1e-13);
  invh_<long double>(M / 2, 1e-16);
  eig(M * 2);
  sub(M * 2);
  return H::finish();
}
