// C20: inverse, QR and eigenvectors
#include "hcv.h"
typedef std::vector<double> M;
static M mul(const M& a, const M& b, int m) { M c((size_t)m * m, 0); for (int i = 0; i < m; i++) for (int k = 0; k < m; k++) for (int j = 0; j < m; j++) c[i * m + j] += a[i * m + k] * b[k * m + j]; return c; }
static double norm(const M& a, int m) { double n = 0; for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < m; j++) s += fabs(a[i * m + j]); n = std::max(n, s); } return n; }
static int gen_m(int big) { if (chance(1, 4000)) { label("25 rows or more"); if (chance(1, 12)) { label("more than 255 rows"); return (int)range(256, 290); } return (int)range(25, 90); } return chance(1, 5) ? (int)range(1, big) : (int)range(1, 6); }
static void permute(std::vector<float>& a, int m) { for (int i = m - 1; i > 0; i--) { int j = (int)draw(i + 1); for (int k = 0; k < m; k++) std::swap(a[i * m + k], a[j * m + k]); } }
static void gen_good(std::vector<float>& a, int m, int* kind) {
  Bulk b = bulk(); int small = m <= 4; *kind = weighted({4, 4, 2}); float sc = chance(1, 8) ? (float)pow(10, (double)range(-10, 10)) : pick({1.f, 1.f, 1000.f, 0.01f});
  auto v = [&](double amp) { return small ? (double)range(-8, 8) / 8 * amp : b.sym(amp); };
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
    double x;
    switch (*kind) {
      case 0: x = i == j ? (chance(1, 2) ? -2 : 2) + v(0.5) : v(1.2 / m); break;      // dominant diagonal
      case 1: x = i == j ? 1 + fabs(v(2)) : j > i ? v(m > 24 ? 3.0 / m : 0.6) : 0; break;                 // triangular, rows shuffled
      default: x = i == j ? (chance(1, 2) ? -1 : 1) * (1 + fabs(v(3))) : 0; break;     // scaled permutation
    }
    a[i * m + j] = (float)x * sc;
  }
  if (*kind) permute(a, m);
}
static void inverse() {
  int m = gen_m(24), kind; std::vector<float> a((size_t)m * m), x((size_t)m * m, 99), w; gen_good(a, m, &kind); w = a;
  describe("inverse of %dx%d, kind %d: %s", m, m, kind, dumpf(a.data(), a.size()).c_str());
  invert_matrix_float(x.data(), w.data(), m);
  M A(a.begin(), a.end()), X(x.begin(), x.end()), P = mul(A, X, m), Q = mul(X, A, m); double tol = 2e-6 * m * std::max(1.0, norm(A, m) * norm(X, m)); label_if(norm(A, m) < 1e-4 || norm(A, m) > 1e5, "tiny or huge entries");
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { REQUIRE(std::isfinite(X[i * m + j]), "inverse entry (%d,%d) is %g", i, j, X[i * m + j]); REQUIRE(tol < 0.5 && fabs(P[i * m + j] - (i == j)) <= tol && fabs(Q[i * m + j] - (i == j)) <= tol, "matrix times inverse has %g at (%d,%d), tolerance %g", P[i * m + j], i, j, tol); }
  bool zero = false; for (int i = 0; i < m; i++) zero |= a[i * m + i] == 0; label("inverse"); label_if(zero, "zero on the diagonal"); nontrivial(m > 1);
}
static void qr() {
  int m = gen_m(20), kind; std::vector<float> a((size_t)m * m), q((size_t)m * m, 5), r((size_t)m * m, 7); gen_good(a, m, &kind); if (kind == 0) permute(a, m); std::vector<float> a0(a);
  describe("QR of %dx%d, kind %d: %s", m, m, kind, dumpf(a.data(), a.size()).c_str());
  matrix_QR_float(a.data(), q.data(), r.data(), m); REQUIRE(a == a0, "the decomposition changed the matrix");
  M A(a.begin(), a.end()), Q(q.begin(), q.end()), R(r.begin(), r.end()), P = mul(Q, R, m); double na = norm(A, m), tol = 1e-3;
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
    double o = 0; for (int k = 0; k < m; k++) o += Q[k * m + i] * Q[k * m + j];
    REQUIRE(fabs(o - (i == j)) <= tol, "columns %d and %d of Q have product %g (%dx%d)", i, j, o, m, m);
    REQUIRE(fabs(P[i * m + j] - A[i * m + j]) <= 2e-6 * m * na, "Q times R has %g at (%d,%d) instead of %g", P[i * m + j], i, j, A[i * m + j]);
    if (j < i) REQUIRE(R[i * m + j] == 0, "R has %g below its diagonal at (%d,%d)", R[i * m + j], i, j);
  }
  label("QR"); nontrivial(m > 1);
}
static void eigen() {
  int m = (int)range(1, chance(1, 4) ? 9 : 5); Bulk b = bulk(); M v((size_t)m * m), A((size_t)m * m, 0), l(m);
  for (int j = 0; j < m; j++) {   // orthonormal columns
    double n = 0; do { for (int i = 0; i < m; i++) v[i * m + j] = b.sym(1); for (int t = 0; t < 2; t++) for (int k = 0; k < j; k++) { double d = 0; for (int i = 0; i < m; i++) d += v[i * m + k] * v[i * m + j]; for (int i = 0; i < m; i++) v[i * m + j] -= d * v[i * m + k]; } n = 0; for (int i = 0; i < m; i++) n += v[i * m + j] * v[i * m + j]; n = sqrt(n); } while (n < 0.05);
    for (int i = 0; i < m; i++) v[i * m + j] /= n;
  }
  double cur = (double)range(-3, 3); for (int k = 0; k < m; k++) { l[k] = cur; cur += 1 + (double)draw(20) / 8; } double sc = chance(1, 8) ? pow(10, (double)range(-8, 8)) : pick({1.0, 1.0, 50.0, 0.1}); for (double& x : l) x *= sc;
  for (int i = m - 1; i > 0; i--) std::swap(l[i], l[draw(i + 1)]);
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) for (int k = 0; k < m; k++) A[i * m + j] += v[i * m + k] * l[k] * v[j * m + k];
  double big = 0; for (double x : l) big = std::max(big, fabs(x)); big = std::max(big, sc);
  for (int c = 0; c < m; c++) {   // the elimination has no pivoting: keep matrices whose pivots are not small
    M t(A); for (int i = 0; i < m; i++) t[i * m + i] -= l[c];
    for (int i = 0; i + 1 < m; i++) { double p = t[i * m + i]; if (fabs(p) < 0.15 * sc) discard(); for (int y = i + 1; y < m; y++) { double f = t[y * m + i] / p; for (int x = i; x < m; x++) t[y * m + x] -= f * t[i * m + x]; } }
  }
  std::vector<float> a(A.begin(), A.end()), ev(l.begin(), l.end()), w((size_t)m * m, 3), a0(a), e0(ev);
  describe("eigenvectors of %dx%d: %s, values %s", m, m, dumpf(a.data(), a.size()).c_str(), dumpf(ev.data(), m).c_str());
  cal_eigen_vector_float(a.data(), w.data(), ev.data(), m, m); REQUIRE(a == a0 && ev == e0, "the matrix or its eigenvalues changed");
  for (int c = 0; c < m; c++) {
    double n = 0; for (int i = 0; i < m; i++) n += (double)w[i * m + c] * w[i * m + c]; REQUIRE(near(n, 1, 1e-4, 0), "eigenvector %d of %d has squared length %g", c, m, n);
    for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < m; j++) s += A[i * m + j] * w[j * m + c]; REQUIRE(fabs(s - l[c] * w[i * m + c]) <= 5e-3 * big, "eigenvector %d of %dx%d: A times v has %g in row %d, not %g times %g", c, m, m, s, i, l[c], w[i * m + c]); }
  }
  label("eigenvectors"); nontrivial(m > 1);
}
static void body() { switch (weighted({4, 4, 3})) { case 0: inverse(); break; case 1: qr(); break; default: eigen(); } }
namespace pbt { Property property_under_test = {"C20",
  "well-conditioned matrices (dominant diagonal, shuffled triangular with zeros on the diagonal, scaled permutations) of drawn size and scale inverted and decomposed, checked by multiplying back; symmetric matrices built from drawn eigenvalues and an orthonormal basis, eigenvectors checked by A v = l v and unit length; non-trivial: more than one row",
  800000, 4800000, 500, body, {"inverses are asked of matrices whose elimination meets only exact zeros or well-sized pivots; eigenvalues are distinct and the elimination without pivoting meets no small pivot"}}; }
