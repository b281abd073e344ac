// C22: constrained energy minimisation
#include "hcv.h"
typedef std::vector<double> M;
static bool invert(M a, M& x, int m) { x.assign((size_t)m * m, 0); for (int i = 0; i < m; i++) x[i * m + i] = 1; for (int i = 0; i < m; i++) { int p = i; for (int r = i + 1; r < m; r++) if (fabs(a[r * m + i]) > fabs(a[p * m + i])) p = r; if (a[p * m + i] == 0) return false; for (int k = 0; k < m; k++) { std::swap(a[p * m + k], a[i * m + k]); std::swap(x[p * m + k], x[i * m + k]); } double s = a[i * m + i]; for (int k = 0; k < m; k++) { a[i * m + k] /= s; x[i * m + k] /= s; } for (int r = 0; r < m; r++) if (r != i) { double f = a[r * m + i]; for (int k = 0; k < m; k++) { a[r * m + k] -= f * a[i * m + k]; x[r * m + k] -= f * x[i * m + k]; } } } return true; }
static double norm(const M& a, int m) { double n = 0; for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < m; j++) s += fabs(a[i * m + j]); n = std::max(n, s); } return n; }
static void body() {
  int b = (int)range(1, chance(1, 4) ? 12 : 5), il = chance(2, 3) ? 0 : gen_il(); Dims d{(int)range(1, chance(1, 8) ? 60 : 12), (int)range(1, chance(1, 8) ? 30 : 10), b};
  if (chance(1, 150)) { d.s = (int)range(60, 300); d.l = (int)range(100, 200); if (chance(1, 2)) std::swap(d.s, d.l); label("10000 pixels or so"); } else if (chance(1, 1500)) { d.s = (int)range(32768, 70000); d.l = 1; if (chance(1, 2)) std::swap(d.s, d.l); b = d.b = (int)range(1, 4); label("more than 32767 lines or samples"); } else if (chance(1, 60)) { b = d.b = chance(1, 6) ? (int)range(90, 130) : chance(1, 90) ? (int)range(256, 300) : (int)range(13, 48); label_if(b > 255, "more than 255 bands"); label("13 bands or more"); if (d.s * d.l < 4 * b) d.l = (4 * b + d.s - 1) / d.s; }
  while (d.s * d.l < 2 * b) (chance(1, 2) ? d.s : d.l)++;
  hyper_mat m = create_hyper_mat(d.s, d.l, d.b, 4, ILS[il]); gen_waves(m); Bulk q = bulk(); float* p = (float*)m->data; size_t n = (size_t)d.s * d.l; double amp = chance(1, 10) ? pow(10, (double)range(-12, 12)) : pick({1.0, 1.0, 200.0, 0.01, 10000.0}); bool pos = chance(1, 2);
  for (size_t i = 0; i < n * b; i++) p[i] = (float)((pos ? q.unit() + 0.1 : q.sym(1)) * amp);
  std::vector<float> t(b); int ti = (int)draw(d.l), tj = (int)draw(d.s); bool in = chance(2, 3); for (int k = 0; k < b; k++) t[k] = in ? p[off(il, d, ti, tj, k)] : (float)((q.unit() + 0.1) * amp); std::vector<float> t0(t);
  double tn = 0; for (float v : t) tn += fabs(v); if (tn < 0.05 * amp) discard();
  Bytes src = snapshot(m); describe("CEM of %dx%dx%d %s, target %s", d.s, d.l, b, ILS[il], dumpf(t.data(), b).c_str());
  M R((size_t)b * b, 0), X; for (int i = 0; i < d.l; i++) for (int j = 0; j < d.s; j++) for (int u = 0; u < b; u++) for (int v = 0; v < b; v++) R[u * b + v] += (double)p[off(il, d, i, j, u)] * p[off(il, d, i, j, v)] / n;
  if (!invert(R, X, b)) discard(); double cond = norm(R, b) * norm(X, b); if (cond > 5000) discard();
  std::vector<double> w(b, 0); double den = 0; for (int u = 0; u < b; u++) { for (int v = 0; v < b; v++) w[u] += X[u * b + v] * t[v]; } for (int u = 0; u < b; u++) den += w[u] * t[u]; double wn = 0; for (double& x : w) { x /= den; wn = std::max(wn, fabs(x)); }
  double tol = 3e-6 * cond * (wn * amp * b + 1) * (1 + n / 2000.0); if (tol > 0.2) discard();
  simple_mat r = hyper_mat_cem(m, t.data()); REQUIRE(t == t0, "the target changed"); check_elements(m, src, il, "cube after CEM");
  REQUIRE(r && r->rows == d.l && r->cols == d.s && r->channels == 1 && r->data_type == 4, "CEM image is %dx%d type %d", r->rows, r->cols, r->data_type);
  const float* s = (const float*)src.data();
  for (int i = 0; i < d.l; i++) for (int j = 0; j < d.s; j++) { double e = 0; for (int k = 0; k < b; k++) e += w[k] * s[off(il, d, i, j, k)]; float g = F32(r)[(size_t)i * d.s + j]; REQUIRE(fabs(g - e) <= tol, "CEM of %dx%dx%d: line %d sample %d is %.9g instead of %.9g (tolerance %g)", d.s, d.l, b, i, j, g, e, tol); }
  if (in) REQUIRE(fabs(F32(r)[(size_t)ti * d.s + tj] - 1) <= tol, "the target pixel gets %.9g instead of 1", F32(r)[(size_t)ti * d.s + tj]);
  delete_hyper_mat(m); delete_simple_mat(r); label(in ? "target in the image" : "target not in the image"); label_if(il != 0, "not BSQ"); nontrivial(b > 1);
}
namespace pbt { Property property_under_test = {"C22",
  "float cubes of drawn size and layout with a target spectrum from the image or not; the oracle inverts the correlation matrix in double precision, the filter output of every pixel and the unit response of the target are checked; non-trivial: several bands",
  240000, 1440000, 100, body, {"the correlation matrix is well conditioned (at most 5000) and the tolerance grows with its condition", "cubes that are not BSQ are converted in place, as the function does"}}; }
