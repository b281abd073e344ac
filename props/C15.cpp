// C15: thresholds
#include "hcv.h"
static const char* const N[] = {"binary", "binary inverse", "truncate", "to zero", "to zero inverse"};
static void fixed() {
  g_giant = 0; int type = (int)draw(5); Dims2 d = gen_dims2(chance(1, 20) ? 60000 : 2000, 1500); simple_mat m = new_u8(d.r, d.c, 1), o = dirty(d.r, d.c, 1, 1); Bytes src = snapshot(m);
  int t = type == 2 ? (int)range(0, 300) : (int)range(-20, 300), mx = (int)draw(256); if (chance(1, 2)) t = src[draw(src.size())];
  bool disp = chance(1, 2);
  describe("%s at %d, maximum %d, %dx%d: %s", N[type], t, mx, d.r, d.c, dump(src.data(), src.size()).c_str());
  if (disp) { static const int code[] = {THRESH_BINARY, THRESH_BINARY_INV, THRESH_TRUNC, THRESH_TOZERO, THRESH_TOZERO_INV}; hypercv_threshold(m, o, t, mx, code[type]); }
  else switch (type) { case 0: hypercv_threshold_binary(m, o, t, mx); break; case 1: hypercv_threshold_binary_inv(m, o, t, mx); break; case 2: hypercv_threshold_trunc(m, o, t, mx); break; case 3: hypercv_threshold_tozero(m, o, t, mx); break; default: hypercv_threshold_tozero_inv(m, o, t, mx); }
  REQUIRE(unchanged(src, m), "thresholding changed its input"); REQUIRE(o->rows == d.r && o->cols == d.c && o->channels == 1 && o->data_type == 1, "thresholding changed the size of its output");
  bool a = false, b = false;
  for (size_t i = 0; i < src.size(); i++) {
    bool up = src[i] > t; a |= up; b |= !up;
    int e = type == 0 ? (up ? mx : 0) : type == 1 ? (up ? 0 : mx) : type == 2 ? (up ? t : src[i]) : type == 3 ? (up ? src[i] : 0) : (up ? 0 : src[i]);
    REQUIRE(U8(o)[i] == e, "%s at %d, maximum %d: pixel %zu, %d, became %d instead of %d", N[type], t, mx, i, src[i], U8(o)[i], e);
  }
  delete_simple_mat(m); delete_simple_mat(o); label(N[type]); nontrivial(a && b);
}
static void otsu() {
  g_giant = 12; Dims2 d = gen_dims2(chance(1, 20) ? 60000 : 2000, 1500); int ch = chance(1, 4) ? 3 : 1; simple_mat m = new_u8(d.r, d.c, ch);
  if (ch == 1 && chance(1, 3)) { Bulk b = bulk(); int lo = (int)draw(200), hi = lo + (int)range(1, 55), w = (int)range(1, 20), den = (int)range(2, 20); for (size_t i = 0; i < mat_elems(m); i++) U8(m)[i] = (unsigned char)clamp255((b.below(den) ? lo : hi) + (int)b.below(w) - w / 2); label("two populations"); }
  std::vector<int> g((size_t)d.r * d.c);
  for (size_t i = 0; i < g.size(); i++) {
    unsigned char* p = U8(m) + i * ch; if (ch == 1) { g[i] = *p; continue; }
    while ((p[0] || p[1] || p[2]) && (114 * p[0] + 587 * p[1] + 299 * p[2]) % 1000 == 0) p[1] ^= 1, p[2] ^= 3;   // keep away from rounding
    g[i] = (114 * p[0] + 587 * p[1] + 299 * p[2]) / 1000;
  }
  Bytes src = snapshot(m); describe("Otsu of %dx%d with %d channels: %s", d.r, d.c, ch, dump(src.data(), src.size()).c_str());
  int t = otsuThreshold(m); REQUIRE(unchanged(src, m), "Otsu changed the image");
  REQUIRE(t >= 0 && t <= 255, "Otsu threshold %d", t);
  double h[256] = {0}; for (int x : g) h[x]++; double n = (double)g.size(); long double best = -1, mine = -1; int levels = 0;
  for (int i = 0; i < 256; i++) levels += h[i] > 0;
  long double n0 = 0, s0 = 0, tot = 0; for (int i = 0; i < 256; i++) tot += i * h[i];
  for (int i = 0; i < 256; i++) { n0 += h[i]; s0 += i * h[i]; if (n0 == 0 || n0 == n) continue; long double u = s0 / n0 - (tot - s0) / (n - n0), v = n0 / n * (n - n0) / n * u * u; if (v > best) best = v; if (i == t) mine = v; }
  if (levels > 1) REQUIRE(mine >= best * (1 - 1e-9L), "threshold %d separates with variance %.9Lg, the best is %.9Lg", t, mine, best);
  if (ch == 1) {
    simple_mat o = dirty(d.r, d.c, 1, 1); if (chance(1, 2)) hypercv_threshold_otsu(m, o); else hypercv_threshold(m, o, (int)draw(256), (int)draw(256), THRESH_OTSU);
    REQUIRE(unchanged(src, m), "Otsu binarisation changed its input");
    for (size_t i = 0; i < src.size(); i++) REQUIRE(U8(o)[i] == (src[i] > t ? 255 : 0), "Otsu binarisation at %d: pixel %d became %d", t, src[i], U8(o)[i]);
    delete_simple_mat(o);
  }
  delete_simple_mat(m); label("Otsu"); nontrivial(levels > 2);
}
static void body() { g_huge = 600; g_giant = 0; if (chance(2, 5)) otsu(); else fixed(); }
namespace pbt { Property property_under_test = {"C15",
  "gray images of drawn size and pixels under five fixed thresholds (directly or by code), with thresholds equal to a pixel, outside 0..255 and any maximum; Otsu thresholds of gray and colour images must reach the best between-class variance, computed separately, and binarise above it; non-trivial: pixels on both sides, three or more levels",
  320000, 1920000, 200, body, {"8-bit images", "truncation is not asked at a negative threshold"}}; }
