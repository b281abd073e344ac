// C10: statistics of an image
#include "hcv.h"
static double elem(simple_mat m, size_t i) {
  switch (m->data_type) { case 1: return U8(m)[i]; case 2: return ((short*)m->data)[i]; case 3: return ((int*)m->data)[i]; case 4: return F32(m)[i]; default: return ((unsigned short*)m->data)[i]; }
}
static void moments() {
  g_giant = 12; Dims2 d = gen_dims2(chance(1, 20) ? 60000 : 3000, 1500); int dt = pick({1, 2, 3, 4, 12}); size_t n = (size_t)d.r * d.c;
  simple_mat m;
  if (dt == 1) m = new_u8(d.r, d.c, 1);
  else {
    m = create_simple_mat(d.r, d.c, dt, 1); Bulk b = bulk(); double amp = pick({1.0, 50.0, 3000.0, 32767.0, 1e6}), mid = (double)range(-20000, 20000);
    double fs = dt == 4 && chance(1, 3) ? pow(10, (double)range(-12, 9)) : 1; if (fs != 1 && chance(1, 2)) mid = 0; label_if(fs < 1e-4, "tiny values"); bool extreme = chance(1, 4); label_if(extreme, "extreme values");
    for (size_t i = 0; i < n; i++) { double v = mid + b.sym(amp); switch (dt) {
      case 2: ((short*)m->data)[i] = (short)(extreme ? (b.below(2) ? 32767 : -32768) : std::max(-32768.0, std::min(32767.0, v))); break;
      case 3: ((int*)m->data)[i] = (int)(extreme ? (b.below(2) ? 2147483647 : -2147483647) : v * 100); break;
      case 4: F32(m)[i] = (float)(v * fs); break;
      default: ((unsigned short*)m->data)[i] = (unsigned short)(extreme ? (b.below(2) ? 65535 : 0) : std::max(0.0, std::min(65535.0, v + 20000))); } }
  }
  Bytes src = snapshot(m); describe("mean and variance of %dx%d, type %d", d.r, d.c, dt);
  long double s = 0, q = 0, mx = 0; for (size_t i = 0; i < n; i++) { s += elem(m, i); mx = std::max(mx, fabsl(elem(m, i))); } long double mean = s / n; for (size_t i = 0; i < n; i++) { long double t = elem(m, i) - mean; q += t * t; } long double var = q / n;
  float gm = simple_mat_mean(m), gv = simple_mat_variance(m);
  REQUIRE(unchanged(src, m), "statistics changed the image");
  REQUIRE(near(gm, (double)mean, 1e-6, 1e-6 * (double)mx + 1e-30), "mean %.9g instead of %.9Lg (%dx%d type %d)", gm, mean, d.r, d.c, dt);
  double em = 2e-6 * (double)mx;
  REQUIRE(near(gv, (double)var, 3e-6, em * em + 2 * sqrt((double)var) * 2.5e-7 * (double)mx + 1e-36), "variance %.9g instead of %.9Lg (%dx%d type %d)", gv, var, d.r, d.c, dt);
  delete_simple_mat(m); label("mean and variance"); label_if(mean < 0, "negative mean"); nontrivial(var > 0);
}
static void gray() {
  g_giant = 12; int ch = chance(1, 3) ? 3 : 1; Dims2 d = gen_dims2(chance(1, 20) ? 60000 : 2500, 1200); size_t n = (size_t)d.r * d.c;
  simple_mat m = new_u8(d.r, d.c, ch); Bytes src = snapshot(m);
  std::vector<int> g(n); for (size_t i = 0; i < n; i++) g[i] = ch == 1 ? src[i] : (int)((src[3 * i] + src[3 * i + 1] + src[3 * i + 2]) / 3.0 + 0.5);
  describe("histogram, entropy and contrast of %dx%d with %d channels: %s", d.r, d.c, ch, dump(src.data(), src.size()).c_str());
  int h[258]; for (int& x : h) x = -77;
  simple_mat_grayscale_statistics(m, h + 1);
  int e[256] = {0}; for (size_t i = 0; i < n; i++) e[g[i]]++;
  REQUIRE(h[0] == -77 && h[257] == -77, "the histogram is written outside its 256 counters");
  for (int i = 0; i < 256; i++) REQUIRE(h[i + 1] == e[i], "count of level %d is %d instead of %d (%d channels)", i, h[i + 1], e[i], ch);
  double ent = 0; int levels = 0; for (int i = 0; i < 256; i++) if (e[i]) { double p = (double)e[i] / n; ent -= p * log2(p); levels++; }
  float ge = simple_mat_entropy(m);
  REQUIRE(near(ge, ent, 1e-5, 1e-4), "entropy %.9g instead of %.9g", ge, ent);
  if (n > 1) {
    double s = 0; for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) { double v = g[(size_t)i * d.c + j]; if (j + 1 < d.c) { double t = v - g[(size_t)i * d.c + j + 1]; s += 2 * t * t; } if (i + 1 < d.r) { double t = v - g[(size_t)(i + 1) * d.c + j]; s += 2 * t * t; } }
    double pairs = 2.0 * ((double)d.r * (d.c - 1) + (double)d.c * (d.r - 1)), c = s / pairs;
    float gc = simple_mat_contrast_ratio(m);
    REQUIRE(near(gc, c, 1e-6, 1e-6), "contrast %.9g instead of %.9g (%dx%d)", gc, c, d.r, d.c);
  }
  REQUIRE(unchanged(src, m), "statistics changed the image");
  delete_simple_mat(m); label(ch == 1 ? "levels of a gray image" : "levels of a colour image"); nontrivial(levels > 1);
}
static void body() { g_huge = 600; g_giant = 0; if (chance(1, 2)) moments(); else gray(); }
namespace pbt { Property property_under_test = {"C10",
  "images of drawn size; five element types for mean and variance, gray or colour 8-bit images for histogram, entropy and contrast; the oracle computes each from its definition in long double; non-trivial: the image is not constant",
  200000, 1200000, 100, body, {"contrast is not asked of a single pixel", "the float mean and variance are compared with float accuracy relative to the largest element"}}; }
