// C23: principal components
#include "hcv.h"
typedef std::vector<double> M;
static void jacobi(M a, std::vector<double>& l, int m) { for (int sweep = 0; sweep < 60; sweep++) { double o = 0; for (int p = 0; p < m; p++) for (int q = p + 1; q < m; q++) { o += a[p * m + q] * a[p * m + q]; if (a[p * m + q] == 0) continue; double th = (a[q * m + q] - a[p * m + p]) / (2 * a[p * m + q]), t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c; for (int k = 0; k < m; k++) { double x = a[k * m + p], y = a[k * m + q]; a[k * m + p] = c * x - s * y; a[k * m + q] = s * x + c * y; } for (int k = 0; k < m; k++) { double x = a[p * m + k], y = a[q * m + k]; a[p * m + k] = c * x - s * y; a[q * m + k] = s * x + c * y; } } if (o == 0) break; } l.resize(m); for (int i = 0; i < m; i++) l[i] = a[i * m + i]; std::sort(l.rbegin(), l.rend()); }
static void body() {
  int b = (int)range(1, chance(1, 4) ? 7 : 4); bool many = chance(1, 60); if (many) { b = (int)range(8, 13); label("eight bands or more"); } Dims d{(int)range(1, 14), (int)range(1, 14), b}; if (chance(1, 300)) { d.s = (int)range(40, 260); d.l = (int)range(100, 200); if (chance(1, 2)) std::swap(d.s, d.l); label("4000 pixels or more"); } else if (chance(1, 3000)) { b = d.b = (int)range(1, 3); d.s = (int)range(32768, 70000); d.l = 1; if (chance(1, 2)) std::swap(d.s, d.l); many = false; label("more than 32767 lines or samples"); } while (d.s * d.l < 4 * b + 4) (chance(1, 2) ? d.s : d.l)++; size_t n = (size_t)d.s * d.l;
  Bulk q = bulk(); M v((size_t)b * b), sd(b); double cur = 1; for (int k = 0; k < b; k++) { sd[k] = cur; cur *= many ? 1.35 + (double)draw(8) / 200 : 1.5 + (double)draw(8) / 8; } for (int i = b - 1; i > 0; i--) std::swap(sd[i], sd[draw(i + 1)]);
  for (int j = 0; j < b; j++) { double nn; do { nn = 0; for (int i = 0; i < b; i++) v[i * b + j] = q.sym(1); for (int t = 0; t < 2; t++) for (int k = 0; k < j; k++) { double s = 0; for (int i = 0; i < b; i++) s += v[i * b + k] * v[i * b + j]; for (int i = 0; i < b; i++) v[i * b + j] -= s * v[i * b + k]; } for (int i = 0; i < b; i++) nn += v[i * b + j] * v[i * b + j]; nn = sqrt(nn); } while (nn < 0.05); for (int i = 0; i < b; i++) v[i * b + j] /= nn; }
  hyper_mat m = create_hyper_mat(d.s, d.l, b, 4, "bip"), r = create_hyper_mat(d.s, d.l, b, 4, "bip"); gen_waves(m); float* p = (float*)m->data; double unit = chance(1, 2) ? 1 : pow(10, (double)range(-10, 10)); std::vector<double> mean(b); for (double& x : mean) x = chance(1, 2) ? (double)range(-20, 20) : 0;
  for (size_t i = 0; i < n; i++) { std::vector<double> z(b); for (int k = 0; k < b; k++) z[k] = q.sym(sd[k]); for (int k = 0; k < b; k++) { double x = mean[k]; for (int j = 0; j < b; j++) x += v[k * b + j] * z[j]; p[i * b + k] = (float)(x * unit); } }
  std::vector<double> mu(b, 0); for (size_t i = 0; i < n; i++) for (int k = 0; k < b; k++) mu[k] += (double)p[i * b + k] / n; M C((size_t)b * b, 0); for (size_t i = 0; i < n; i++) for (int u = 0; u < b; u++) for (int w = 0; w < b; w++) C[u * b + w] += (p[i * b + u] - mu[u]) * (p[i * b + w] - mu[w]);
  std::vector<double> l; jacobi(C, l, b);
  for (int k = 0; k + 1 < b; k++) if (l[k] < 1.6 * l[k + 1]) discard();
  if (l[b - 1] <= 0 || l[0] > 3000 * l[b - 1]) discard();
  for (int c = 0; c < b; c++) { M t(C); for (int i = 0; i < b; i++) t[i * b + i] -= l[c]; double sc = 0; for (double x : t) sc = std::max(sc, fabs(x)); for (int i = 0; i + 1 < b; i++) { double e = t[i * b + i]; if (fabs(e) < 0.05 * sc) discard(); for (int y = i + 1; y < b; y++) { double f = t[y * b + i] / e; for (int x = i; x < b; x++) t[y * b + x] -= f * t[i * b + x]; } } }
  Bytes src = snapshot(m); int it = chance(1, 20) ? (int)range(81, chance(1, 4) ? 700 : 200) : (int)range(40, 80); describe("PCA of %dx%dx%d, %d iterations, variances %g..%g", d.s, d.l, b, it, l[0], l[b - 1]); label_if(unit < 1, "values below 1"); label_if(unit > 1, "values above 1000");
  memset(r->data, 0x41, cube_bytes(r)); hyper_mat_pca(m, r, it); REQUIRE(unchanged(src, m), "PCA changed its input"); check_shape(r, d, 4, 2, "components");
  const float* g = (const float*)r->data; std::vector<double> gm(b, 0); M G((size_t)b * b, 0);
  for (size_t i = 0; i < n * b; i++) REQUIRE(std::isfinite(g[i]), "component value %g", g[i]);
  for (size_t i = 0; i < n; i++) for (int k = 0; k < b; k++) gm[k] += (double)g[i * b + k] / n;
  for (size_t i = 0; i < n; i++) for (int u = 0; u < b; u++) for (int w = 0; w < b; w++) G[u * b + w] += (g[i * b + u] - gm[u]) * (g[i * b + w] - gm[w]);
  double top = 0; for (int u = 0; u < b; u++) top += fabs(mu[u]) + sqrt(l[0] / n);   // rounding of centred floats
  for (int u = 0; u < b; u++) {
    REQUIRE(fabs(gm[u]) <= 4e-6 * top + 1e-6 * sqrt(l[0] / n), "component %d has mean %g", u, gm[u]);
    REQUIRE(near(G[u * b + u], l[u], 2e-2, 0), "component %d of %d has variance %.6g instead of %.6g", u, b, G[u * b + u] / n, l[u] / n);
    for (int w = 0; w < u; w++) REQUIRE(fabs(G[u * b + w]) <= 2e-2 * sqrt(l[u] * l[w]), "components %d and %d are correlated: %g", u, w, G[u * b + w] / sqrt(l[u] * l[w]));
  }
  for (size_t i = 1; i < n; i++) { double a = 0, c = 0; for (int k = 0; k < b; k++) { a += pow((double)p[i * b + k] - p[(i - 1) * b + k], 2); c += pow((double)g[i * b + k] - g[(i - 1) * b + k], 2); } REQUIRE(near(sqrt(a), sqrt(c), 2e-2, 1e-2 * sqrt(l[0] / n)), "pixels %zu and %zu are %g apart, their components %g", i - 1, i, sqrt(a), sqrt(c)); }
  delete_hyper_mat(m); delete_hyper_mat(r); label_if(b > 3, "four or more bands"); bool off0 = false; for (double x : mean) off0 |= x != 0; label_if(off0, "means not zero"); nontrivial(b > 1);
}
namespace pbt { Property property_under_test = {"C23",
  "float cubes with drawn means, orthonormal directions and separated variances; the components must have the eigenvalues of the covariance, computed by a Jacobi iteration in double precision, as variances in descending order, be uncorrelated, have zero mean and keep the distances between pixels; non-trivial: several bands",
  600000, 3600000, 200, body, {"the variances differ by a factor of 1.6 and the elimination without pivoting meets no small pivot", "40 to 700 QR iterations"}}; }
