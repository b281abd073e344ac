// C27: k-means
#include "hcv.h"
extern "C" {
#include "c_include/vector.h"
}
static void body() {
  Dims2 d = gen_dims2(chance(1, 20) ? 6000 : 600, 200); int ch = chance(1, 4) ? 3 : 1, kind = (int)range(1, chance(1, 4) ? 12 : 4), thr = chance(2, 3) ? 0 : (int)range(0, chance(1, 8) ? 300 : 4); if (chance(1, 60)) kind = (int)range(13, 130); bool wide = chance(1, 400); if (wide) { d.r = 1 + (int)draw(2); d.c = (int)range(40000, 100000); if (chance(1, 2)) std::swap(d.r, d.c); kind = (int)range(1, 3); } g_time = (long)draw(1u << 30);
  simple_mat m = create_simple_mat(d.r, d.c, 1, ch); Bulk b = bulk(); int mode = (int)draw(4), den = (int)range(2, 40);
  if (mode == 1) { int n = (int)range(1, 5); for (int t = 0; t < n; t++) { int ci = (int)b.below(d.r), cj = (int)b.below(d.c), rr = (int)b.below(5); for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) if (abs(i - ci) <= rr && abs(j - cj) <= rr) for (int k = 0; k < ch; k++) U8(m)[((size_t)i * d.c + j) * ch + k] = (unsigned char)(1 + b.below(255)); } }
  else if (mode != 3) for (size_t i = 0; i < (size_t)d.r * d.c; i++) { bool on = d.r * d.c <= 40 ? draw(2) : wide ? b.below(9) > 0 : mode == 0 ? b.below(2) : b.below(den) == 0; for (int k = 0; k < ch; k++) U8(m)[i * ch + k] = on ? (ch == 3 && b.below(3) == 0 ? (unsigned char)b.below(3) : (unsigned char)(1 + b.below(255))) : 0; }
  std::vector<char> on((size_t)d.r * d.c); long cnt = 0; for (size_t i = 0; i < on.size(); i++) { const unsigned char* p = U8(m) + i * ch; on[i] = ch == 1 ? p[0] != 0 : (2 * (p[0] + p[1] + p[2]) + 3) / 6 != 0; cnt += on[i]; }
  POINT* v = NULL; POINT z; z.x = 0; z.y = 0; for (int k = 0; k < kind; k++) vector_push_back(v, z);
  Bytes src = snapshot(m); describe("%d centres in %dx%d with %d channels, %ld points, threshold %d, time %ld", kind, d.r, d.c, ch, cnt, thr, g_time);
  hypercv_k_means(m, v, kind, thr);
  REQUIRE(unchanged(src, m), "the image changed"); REQUIRE((int)vector_size(v) == kind, "the number of centres changed");
  for (int k = 0; k < kind; k++) REQUIRE(v[k].x >= 0 && v[k].x < d.c && v[k].y >= 0 && v[k].y < d.r, "centre %d is (%d,%d) in %dx%d", k, v[k].x, v[k].y, d.r, d.c);
  if (thr == 0) {
    std::vector<long> sx(kind, 0), sy(kind, 0), n(kind, 0);
    for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) if (on[(size_t)i * d.c + j]) { int best = 0; long bd = -1; for (int k = 0; k < kind; k++) { long dx = v[k].x - j, dy = v[k].y - i, q = dx * dx + dy * dy; if (bd < 0 || q < bd) { bd = q; best = k; } } sx[best] += j; sy[best] += i; n[best]++; }
    for (int k = 0; k < kind; k++) { long ex = n[k] ? sx[k] / n[k] : 0, ey = n[k] ? sy[k] / n[k] : 0; REQUIRE(v[k].x == ex && v[k].y == ey, "centre %d is (%d,%d), the %ld points nearest to it have their mean at (%ld,%ld)", k, v[k].x, v[k].y, n[k], ex, ey); }
    label("until nothing moves");
  } else label("until little moves");
  vector_free(v); delete_simple_mat(m); label_if(ch == 3, "colour image"); label_if(cnt == 0, "no points"); label_if(wide, "up to 200000 pixels"); nontrivial(kind > 1 && cnt > kind);
}
namespace pbt { Property property_under_test = {"C27",
  "images of drawn size with random points, blobs or nothing, 1..12 (rarely 130) centres, a drawn clock (which seeds the start), thresholds 0..4 (rarely 300); the call must return and, at threshold 0, every centre must be the mean, rounded down, of the nonzero pixels nearest to it; non-trivial: several centres and more points than centres",
  240000, 1440000, 50, body, {"8-bit images of 1 or 3 channels", "a centre without points is at the origin"}}; }
