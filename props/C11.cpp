// C11: linear filters
#include "hcv.h"
static int border() { return (int)range(0, 4); }
static double px(const Bytes& s, int r, int c, int cn, int i, int j, int k, int bt) { if (bt == 0 && (i < 0 || i >= r || j < 0 || j >= c)) return 0; return s[((size_t)border_ref(i, r, bt) * c + border_ref(j, c, bt)) * cn + k]; }
static void kernel(std::vector<float>& k) {
  int mode = weighted({3, 3, 2, 1});
  if (k.size() <= 25 && mode == 0) { for (float& x : k) x = (float)range(-9, 9); return; }
  Bulk b = bulk();
  for (float& x : k) x = mode == 0 ? (float)((int)b.below(19) - 9) : mode == 1 ? (float)b.sym(2) : mode == 2 ? 1.0f / k.size() : (b.below(4) ? 0.f : (float)b.sym(100));
}
static void filter() {
  Dims2 d = gen_dims2(1500, 500); int cn = chance(1, 3) ? 3 : 1, kr = chance(1, 4) ? (int)range(1, 12) : (int)range(1, 5), kc = chance(1, 4) ? (int)range(1, 12) : (int)range(1, 5), bt = border();
  if (chance(1, 80)) { kr = (int)range(13, 45); kc = (int)range(1, 45); if (chance(1, 3)) { kr = (int)range(46, 300); kc = (int)range(1, 3); } if (chance(1, 2)) std::swap(kr, kc); d = gen_dims2(300, 100); label("kernel of 13 or more"); }
  if (chance(1, 2)) { kr |= 1; kc |= 1; }
  simple_mat m = new_u8(d.r, d.c, cn), o = dirty(d.r, d.c, 4, cn); Bytes src = snapshot(m);
  std::vector<float> k((size_t)kr * kc); kernel(k); std::vector<float> k0(k);
  describe("filter %dx%dx%d with a %dx%d kernel %s, border %d", d.r, d.c, cn, kr, kc, dumpf(k.data(), k.size()).c_str(), bt);
  hypercv_filter2D(m, o, k.data(), kr, kc, bt);
  REQUIRE(unchanged(src, m) && k == k0, "filtering changed its input"); REQUIRE(o->rows == d.r && o->cols == d.c && o->channels == cn && o->data_type == 4, "filtering changed the size of its output");
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) for (int c = 0; c < cn; c++) {
    double s = 0, a = 0;
    for (int x = 0; x < kr; x++) for (int y = 0; y < kc; y++) { double t = (double)k[x * kc + y] * px(src, d.r, d.c, cn, i + x - kr / 2, j + y - kc / 2, c, bt); s += t; a += fabs(t); }
    float g = F32(o)[((size_t)i * d.c + j) * cn + c];
    REQUIRE(near(g, s, 0, 3e-7 * (kr * kc + 2) * a + 1e-6), "filter %dx%d, border %d: pixel (%d,%d) channel %d of %dx%d is %.9g instead of %.9g", kr, kc, bt, i, j, c, d.r, d.c, g, s);
  }
  delete_simple_mat(m); delete_simple_mat(o);
  label("filter2D"); label_if(kr > d.r || kc > d.c, "kernel larger than the image"); label_if(kr != kc, "kernel not square"); nontrivial(kr * kc > 1 && d.r * d.c > 1);
}
static std::vector<double> gauss_ref(int n, double sigma) {
  static const double t3[] = {.25, .5, .25}, t5[] = {.0625, .25, .375, .25, .0625}, t7[] = {.03125, .109375, .21875, .28125, .21875, .109375, .03125};
  std::vector<double> k(n);
  if (sigma <= 0 && n % 2 && n <= 7) { if (n == 1) k[0] = 1; else for (int i = 0; i < n; i++) k[i] = n == 3 ? t3[i] : n == 5 ? t5[i] : t7[i]; return k; }
  double s = sigma > 0 ? sigma : ((n - 1) * 0.5 - 1) * 0.3 + 0.8, sum = 0;
  for (int i = 0; i < n; i++) { double x = i - (n - 1) * 0.5; k[i] = exp(-x * x / (2 * s * s)); sum += k[i]; }
  for (double& x : k) x /= sum;
  return k;
}
static double gen_sigma(int n) { return chance(1, 3) ? 0.0 : chance(1, 12) ? (n % 2 ? pow(10, -range(1, 30) * 0.1) : 0.06 + draw(25) * 0.01) : chance(1, 8) ? -1.0 : chance(1, 8) ? (double)range(1, chance(1, 4) ? 20000 : 12) : 0.3 + draw(100) * 0.06; }
static void gkernel() {
  int n = chance(1, 4) ? (int)range(1, chance(1, 4) ? 400 : 60) : (int)range(1, 15), ty = pick({4, 5}); double sg = gen_sigma(n);
  describe("gaussian kernel of %d, sigma %g, type %d", n, sg, ty);
  simple_mat k = gaussian_kernel(n, sg, ty);
  REQUIRE(k && k->rows == 1 && k->cols == n && k->channels == 1 && k->data_type == ty, "kernel has the wrong size or type");
  std::vector<double> e = gauss_ref(n, sg); double sum = 0;
  for (int i = 0; i < n; i++) { double g = ty == 4 ? F32(k)[i] : ((double*)k->data)[i]; sum += g; REQUIRE(near(g, e[i], 2e-6, 1e-9), "kernel of %d, sigma %g: weight %d is %.9g instead of %.9g", n, sg, i, g, e[i]); }
  REQUIRE(near(sum, 1, 1e-5, 0), "weights sum to %.9g", sum);
  delete_simple_mat(k); label("gaussian kernel"); nontrivial(n > 1);
}
static void blur() {
  Dims2 d = gen_dims2(1200, 400); int cn = chance(1, 3) ? 3 : 1, bt = border(); bool custom = chance(1, 3);
  int w = 2 * (int)range(0, chance(1, 4) ? 10 : 3) + 1, h = 2 * (int)range(0, chance(1, 4) ? 10 : 3) + 1; if (chance(1, 60)) { (chance(1, 2) ? w : h) = 2 * (int)range(11, 80) + 1; label("blur of 23 or more"); }
  simple_mat m = new_u8(d.r, d.c, cn), o = dirty(d.r, d.c, 1, cn); Bytes src = snapshot(m);
  std::vector<double> kx, ky;
  if (custom) {
    w = (int)range(1, 8); h = (int)range(1, 8); if (chance(1, 40)) (chance(1, 2) ? w : h) = (int)range(9, 60); simple_mat a = create_simple_mat(1, w, 4, 1), b = create_simple_mat(1, h, 4, 1); Bulk q = bulk(); bool neg = chance(1, 2);
    for (int i = 0; i < w; i++) { F32(a)[i] = (float)(neg ? q.sym(1) : q.unit()) / (chance(1, 4) ? 1 : w); kx.push_back(F32(a)[i]); }
    for (int i = 0; i < h; i++) { F32(b)[i] = (float)(neg ? q.sym(1) : q.unit()) / (chance(1, 4) ? 1 : h); ky.push_back(F32(b)[i]); }
    describe("blur %dx%dx%d with kernels of %d and %d, border %d", d.r, d.c, cn, w, h, bt);
    Bytes sa = snapshot(a), sb = snapshot(b); hypercv_gaussian_blur_with_kernel(m, o, a, b, bt);
    REQUIRE(unchanged(sa, a) && unchanged(sb, b), "blurring changed its kernels"); delete_simple_mat(a); delete_simple_mat(b); label("separable kernels");
  } else {
    double s1 = gen_sigma(w), s2 = gen_sigma(h);
    describe("gaussian blur %dx%dx%d, %dx%d, sigma %g %g, border %d", d.r, d.c, cn, w, h, s1, s2, bt);
    hypercv_gaussian_blur(m, o, w, h, s1, s2, bt);
    kx = gauss_ref(w, s1); ky = gauss_ref(h, s2 <= 0 ? s1 : s2); label("gaussian blur");
  }
  REQUIRE(unchanged(src, m), "blurring changed its input"); REQUIRE(o->rows == d.r && o->cols == d.c && o->channels == cn && o->data_type == 1, "blurring changed the size of its output");
  std::vector<double> t((size_t)d.r * d.c * cn);
  auto cl = [](double v) { return v < 0 ? 0.0 : v > 255 ? 255.0 : v; };
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) for (int c = 0; c < cn; c++) { double s = 0; for (int k = 0; k < w; k++) s += kx[k] * px(src, d.r, d.c, cn, i, j + k - w / 2, c, bt); t[((size_t)i * d.c + j) * cn + c] = cl(s); }
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) for (int c = 0; c < cn; c++) {
    double s = 0; for (int k = 0; k < h; k++) { int y = i + k - h / 2; if (bt == 0 && (y < 0 || y >= d.r)) continue; s += ky[k] * t[((size_t)border_ref(y, d.r, bt) * d.c + j) * cn + c]; } s = cl(s);
    int g = U8(o)[((size_t)i * d.c + j) * cn + c];
    REQUIRE(fabs(g - s) <= 0.502, "blur %dx%d, border %d: pixel (%d,%d) channel %d of %dx%dx%d is %d instead of %.6g", w, h, bt, i, j, c, d.r, d.c, cn, g, s);
  }
  delete_simple_mat(m); delete_simple_mat(o); label_if(w != h, "different width and height"); nontrivial((w > 1 || h > 1) && d.r * d.c > 1);
}
static void body() { switch (weighted({4, 1, 4})) { case 0: filter(); break; case 1: gkernel(); break; default: blur(); } }
namespace pbt { Property property_under_test = {"C11",
  "gray or colour images of drawn size and pixels under drawn kernels (even and odd, up to 12x12, larger than the image), gaussian kernels and blurs of drawn size and sigma and blurs with drawn separable kernels, with five border modes; the oracle is the direct sum in double precision; non-trivial: a kernel and an image of more than one element",
  56000, 336000, 50, body, {"8-bit sources of 1 or 3 channels", "pixels outside a constant border count as zero"}}; }
