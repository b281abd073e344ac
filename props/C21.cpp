// C21: spectra and radiometric correction
#include "hcv.h"
static const char* pat(int m) { static const char* const N[] = {"random", "multiple", "few bands", "equal"}; return N[m]; }
static void gen_spec(float* p, int n, const float* other, int mode, Bulk& b) {
  double sc = 0.5 + b.unit() * 3;
  for (int k = 0; k < n; k++) switch (mode) { case 0: p[k] = (float)(b.unit() * 1000); break; case 1: p[k] = other ? (float)(other[k] * sc) : (float)(b.unit()); break; case 2: p[k] = b.below(3) ? 0 : (float)b.unit(); break; default: p[k] = other ? other[k] : 1 + (float)b.below(5); }
  bool z = true; for (int k = 0; k < n; k++) z &= p[k] == 0; if (z) p[b.below(n)] = 1;
}
static double angle(const float* x, const float* y, int n) { long double a = 0, b = 0, c = 0; for (int k = 0; k < n; k++) { a += (long double)x[k] * y[k]; b += (long double)x[k] * x[k]; c += (long double)y[k] * y[k]; } long double t = a / sqrtl(b * c); return (double)acosl(t > 1 ? 1 : t); }
static double ang_tol(double a, int n) { double dc = 1e-6; return std::min(sqrt(2 * dc) + 1e-6, dc / std::max(sin(a), 1e-9) * 2 + 1e-6); }
static void pairs() {
  int n = chance(1, 200) ? (int)range(400, chance(1, 10) ? 40000 : 3000) : dim(chance(1, 8) ? 400 : 40), mode = weighted({4, 2, 2, 1}); Bulk b = bulk(); std::vector<float> x(n), y(n);
  gen_spec(x.data(), n, NULL, chance(1, 3) ? 2 : 0, b); gen_spec(y.data(), n, x.data(), mode, b);
  double sx = 1, sy = 1; if (chance(1, 4)) { sx = pow(10, (double)range(-18, 18)); sy = chance(1, 2) ? sx : pow(10, (double)range(-18, 18)); for (float& v : x) v = (float)(v * sx); for (float& v : y) v = (float)(v * sy); bool zx = true, zy = true; for (int k = 0; k < n; k++) { zx &= x[k] == 0; zy &= y[k] == 0; } if (zx || zy) discard(); label("spectra of any scale"); }
  describe("spectra of %d bands, second %s, scales %g %g", n, pat(mode), sx, sy);
  float g = spectral_angle_mapper(x.data(), y.data(), n), h = spectral_angle_mapper(y.data(), x.data(), n); double e = angle(x.data(), y.data(), n);
  REQUIRE(fabs(g - e) <= ang_tol(e, n), "angle %.9g instead of %.9g (%d bands)", g, e, n); REQUIRE(fabs(g - h) <= 1e-6 + ang_tol(e, n), "angle %.9g one way, %.9g the other", g, h);
  double s = 0; for (int k = 0; k < n; k++) s += ((double)x[k] - y[k]) * ((double)x[k] - y[k]); float d = euclidean_distance(x.data(), y.data(), n);
  REQUIRE(near(d, sqrt(s), 1e-6, 1e-40), "distance %.9g instead of %.9g (%d bands)", d, sqrt(s), n);
  label("two spectra"); label_if(e < 1e-3, "parallel spectra"); nontrivial(n > 1);
}
static void match() {
  Dims d = gen_dims(1500, 400); hyper_mat m = create_hyper_mat(d.s, d.l, d.b, 4, "bip"); gen_waves(m); Bulk b = bulk(); std::vector<float> t(d.b); gen_spec(t.data(), d.b, NULL, 0, b);
  float* p = (float*)m->data; size_t n = (size_t)d.s * d.l; std::vector<double> a(n); for (size_t i = 0; i < n; i++) { gen_spec(p + i * d.b, d.b, t.data(), (int)b.below(4), b); a[i] = angle(p + i * d.b, t.data(), d.b); }
  if (chance(1, 6)) { double sc = pow(10, (double)range(-12, 12)); for (size_t i = 0; i < n * d.b; i++) p[i] = (float)(p[i] * sc); if (chance(1, 2)) { sc = pow(10, (double)range(-12, 12)); for (float& v : t) v = (float)(v * sc); } bool z = false; for (size_t i = 0; i < n && !z; i++) { z = true; for (int k = 0; k < d.b; k++) z &= p[i * d.b + k] == 0; } if (z) discard(); for (size_t i = 0; i < n; i++) a[i] = angle(p + i * d.b, t.data(), d.b); label("cube of any scale"); }
  float th = chance(1, 2) ? (float)(0.05 + b.unit() * 1.4) : (float)(a[b.below(n)] + b.sym(0.05)); std::vector<float> t0(t); Bytes src = snapshot(m); describe("match %dx%dx%d at %g", d.s, d.l, d.b, th);
  simple_mat r = spectrum_SAM_match(m, t.data(), th); REQUIRE(unchanged(src, m) && t == t0, "matching changed its input");
  REQUIRE(r && r->rows == d.l && r->cols == d.s && r->channels == 1 && r->data_type == 1, "match image has the wrong size or type"); bool on = false, offm = false;
  for (size_t i = 0; i < n; i++) { REQUIRE(U8(r)[i] <= 1, "match value %d", U8(r)[i]); if (fabs(a[i] - th) <= ang_tol(a[i], d.b)) continue; int e = a[i] >= th; (e ? on : offm) = true; REQUIRE(U8(r)[i] == e, "pixel %zu with angle %.6g is %d at threshold %g", i, a[i], U8(r)[i], th); }
  delete_hyper_mat(m); delete_simple_mat(r); label("match"); nontrivial(on && offm);
}
static void average() {
  Dims d = gen_dims(chance(1, 20) ? 60000 : 2500, 1000); hyper_mat m = create_hyper_mat(d.s, d.l, d.b, 4, "bip"); gen_waves(m); Bulk b = bulk(); float* p = (float*)m->data; for (size_t i = 0; i < (size_t)d.s * d.l * d.b; i++) p[i] = (float)b.sym(1000);
  simple_mat r = dirty(d.l, d.s, 4, 1); Bytes src = snapshot(m); describe("mean over bands of %dx%dx%d", d.s, d.l, d.b); hyper_mat_mean(m, r); REQUIRE(unchanged(src, m), "the cube changed");
  for (size_t i = 0; i < (size_t)d.s * d.l; i++) { double s = 0, a = 0; for (int k = 0; k < d.b; k++) { s += p[i * d.b + k]; a += fabs(p[i * d.b + k]); } REQUIRE(near(F32(r)[i], s / d.b, 0, 1.3e-7 * (d.b + 2) * a / d.b), "mean over bands at line %d sample %d is %.9g instead of %.9g", (int)i / d.s, (int)i % d.s, F32(r)[i], s / d.b); }
  delete_hyper_mat(m); delete_simple_mat(r); label("mean over bands"); nontrivial(d.b > 1 && d.s * d.l > 1);
}
static void correct() {
  Dims d = gen_dims(chance(1, 20) ? 60000 : 2500, 1000); bool rel = chance(1, 2); hyper_mat m = create_hyper_mat(d.s, d.l, d.b, rel ? 12 : 4, "bip"); gen_waves(m); Bulk b = bulk(); size_t n = (size_t)d.s * d.l * d.b;
  for (size_t i = 0; i < n; i++) if (rel) ((unsigned short*)m->data)[i] = (unsigned short)b.next(); else ((float*)m->data)[i] = (float)b.sym(5000);
  if (chance(1, 40)) { size_t e = rel ? 2 : 4; for (size_t i = 1; i < n; i++) memcpy((char*)m->data + i * e, m->data, e); }
  std::vector<float> c((size_t)d.b * (rel ? d.s : 1)); for (float& x : c) x = (float)(0.5 + b.unit()); std::vector<float> c0(c); Bytes src = snapshot(m);
  describe("%s correction of %dx%dx%d", rel ? "relative" : "absolute", d.s, d.l, d.b);
  hyper_mat r = rel ? relative_radiometric_correction(m, c.data()) : absolute_radiometric_correction(m, c.data());
  REQUIRE(unchanged(src, m) && c == c0, "the correction changed its input"); check_shape(r, d, 4, 2, "corrected cube");
  for (int i = 0; i < d.l; i++) for (int j = 0; j < d.s; j++) for (int k = 0; k < d.b; k++) {
    size_t q = off(2, d, i, j, k); double v = rel ? (double)((unsigned short*)m->data)[q] : (double)((float*)m->data)[q], e = v * c[rel ? (size_t)k * d.s + j : k]; float g = ((float*)r->data)[q];
    REQUIRE(near(g, e, 2e-7, 1e-30), "%s correction of %dx%dx%d: line %d sample %d band %d is %.9g instead of %.9g", rel ? "relative" : "absolute", d.s, d.l, d.b, i, j, k, g, e);
  }
  delete_hyper_mat(m); delete_hyper_mat(r); label(rel ? "relative correction" : "absolute correction"); nontrivial(d.b > 1 && d.s > 1 && d.l > 1);
}
static void body() { switch (weighted({4, 3, 2, 3})) { case 0: pairs(); break; case 1: match(); break; case 2: average(); break; default: correct(); } }
namespace pbt { Property property_under_test = {"C21",
  "pairs of spectra (random, parallel, few bands, equal), cubes matched against a spectrum at drawn thresholds, means over bands and both radiometric corrections with drawn coefficients against their definitions in long double; non-trivial: several bands and pixels, pixels on both sides of the threshold",
  480000, 2880000, 200, body, {"spectra are not negative and not all zero", "pixels whose angle is within float accuracy of the threshold may go either way"}}; }
