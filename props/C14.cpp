// C14: edges
#include "hcv.h"
extern "C" float cal_edge_signal_energy(simple_mat) __attribute__((weak));
static void energy() { g_giant = 12;
  if (!cal_edge_signal_energy) discard();
  Dims2 d = gen_dims2(1500, 700); simple_mat m = new_u8(d.r, d.c, 1); Bytes src = snapshot(m); describe("edge energy of %dx%d: %s", d.r, d.c, dump(src.data(), src.size()).c_str());
  auto S = [&](int i, int j) { return i < 0 || i >= d.r || j < 0 || j >= d.c ? 0.0 : (double)src[(size_t)i * d.c + j]; };
  double sum = 0, mag = 0; for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) { double a = 0, b = 0, p = 0; for (int y = -1; y <= 1; y++) for (int x = -1; x <= 1; x++) { double v = S(i + y, j + x), w1 = x == 0 && y == 0 ? 4 : x + y == 0 ? 1 : -1, w2 = x == 0 && y == 0 ? 4 : x == y ? 1 : -1; a += w1 * v / 6; b += w2 * v / 6; p += v; } sum += (a + b) * (a + b); mag += p * p; }
  double n = (double)d.r * d.c, g = cal_edge_signal_energy(m); REQUIRE(unchanged(src, m) && m->channels == 1 && m->data_type == 1, "measuring the edge energy changed the image");
  REQUIRE(near(g, sum / n, 1e-5, 1e-9 * mag / n + 1e-6), "edge energy of %dx%d is %.8g instead of %.8g", d.r, d.c, g, sum / n);
  delete_simple_mat(m); label("edge energy"); nontrivial(sum > 0);
}
static void body() { g_huge = 600; g_giant = 0;
  if (chance(1, 5)) return energy();
  g_giant = 0; bool sob = chance(1, 2); Dims2 d = gen_dims2(chance(1, 20) ? 9000 : 1200, 700); int bt = (int)range(0, 4);
  simple_mat m = new_u8(d.r, d.c, 1), o = dirty(d.r, d.c, 1, 1); Bytes src = snapshot(m);
  auto S = [&](int i, int j) { if (bt == 0 && (i < 0 || i >= d.r || j < 0 || j >= d.c)) return 0; return (int)src[(size_t)border_ref(i, d.r, bt) * d.c + border_ref(j, d.c, bt)]; };
  auto gx = [&](int i, int j) { return abs(S(i - 1, j + 1) + 2 * S(i, j + 1) + S(i + 1, j + 1) - S(i - 1, j - 1) - 2 * S(i, j - 1) - S(i + 1, j - 1)); };
  auto gy = [&](int i, int j) { return abs(S(i - 1, j - 1) + 2 * S(i - 1, j) + S(i - 1, j + 1) - S(i + 1, j - 1) - 2 * S(i + 1, j) - S(i + 1, j + 1)); };
  int t = 0, ks = 1;
  if (sob) { t = (int)range(-2, 1030); if (chance(1, 2)) { int i = (int)draw(d.r), j = (int)draw(d.c); t = std::max(gx(i, j), gy(i, j)) - (int)draw(2); label("threshold equal to a gradient"); } }
  else ks = (int)range(1, 4);
  describe("%s of %dx%d, border %d, %s %d: %s", sob ? "sobel" : "laplacian", d.r, d.c, bt, sob ? "threshold" : "size", sob ? t : ks, dump(src.data(), src.size()).c_str());
  if (sob) hypercv_sobel(m, o, t, bt); else hypercv_laplacian(m, o, ks, bt);
  REQUIRE(unchanged(src, m), "the source changed"); REQUIRE(o->rows == d.r && o->cols == d.c && o->data_type == 1, "output changed its size");
  bool hi = false, lo = false;
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
    int e = sob ? (std::max(gx(i, j), gy(i, j)) > t ? 255 : 0) : clamp255((ks == 2 ? 2 : 1) * (S(i - 1, j) + S(i + 1, j) + S(i, j - 1) + S(i, j + 1) - 4 * S(i, j)));
    int g = U8(o)[(size_t)i * d.c + j]; hi |= e > 0; lo |= e < 255;
    REQUIRE(g == e, "%s at (%d,%d) of %dx%d, border %d, %s %d: %d instead of %d", sob ? "sobel" : "laplacian", i, j, d.r, d.c, bt, sob ? "threshold" : "size", sob ? t : ks, g, e);
  }
  delete_simple_mat(m); delete_simple_mat(o);
  label(sob ? "sobel" : "laplacian"); nontrivial(hi && lo);
}
namespace pbt { Property property_under_test = {"C14",
  "gray images of drawn size and pixels, five border modes, thresholds over the whole range of gradients and equal to one, both laplacian kernels, and the edge energy (the mean squared sum of two diagonal kernels), against the definitions; non-trivial: the result has both edge and non-edge pixels, energy is not zero",
  320000, 1920000, 100, body, {"8-bit images of one channel", "pixels outside a constant border count as zero"}}; }
