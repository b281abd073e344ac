// C26: Hu moments and shape matching
#include "hcv.h"
static bool ref(const unsigned char* p, int r, int c, double* hu, double* mag) {
  long s00 = 0, s10 = 0, s01 = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { long v = p[(size_t)i * c + j]; s00 += v; s10 += v * j; s01 += v * i; } if (!s00) return false;
  if ((2 * s10 + s00) % (2 * s00) == 0 || (2 * s01 + s00) % (2 * s00) == 0) return false;   // two pixels are equally near
  long cx = (2 * s10 + s00) / (2 * s00), cy = (2 * s01 + s00) / (2 * s00); long double m[4][4] = {{0}}, A[4][4] = {{0}}; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int a = 0; a < 4; a++) for (int b = 0; a + b < 4; b++) { long double x = p[(size_t)i * c + j]; for (int k = 0; k < a; k++) x *= j - cx; for (int k = 0; k < b; k++) x *= i - cy; m[a][b] += x; A[a][b] += fabsl(x); }
  long double n2 = (long double)s00 * s00, n3 = powl(s00, 2.5L), u20 = m[2][0] / n2, u02 = m[0][2] / n2, u11 = m[1][1] / n2, u30 = m[3][0] / n3, u03 = m[0][3] / n3, u12 = m[1][2] / n3, u21 = m[2][1] / n3;
  long double a = u30 - 3 * u12, b = 3 * u21 - u03, e = u30 + u12, f = u21 + u03;
  hu[0] = u20 + u02; hu[1] = (u20 - u02) * (u20 - u02) + 4 * u11 * u11; hu[2] = a * a + b * b; hu[3] = e * e + f * f; hu[4] = a * e * (e * e - 3 * f * f) + b * f * (3 * e * e - f * f); hu[5] = (u20 - u02) * (e * e - f * f) + 4 * u11 * e * f; hu[6] = b * e * (e * e - 3 * f * f) - a * f * (3 * e * e - f * f);
  // size of the terms that may cancel, and a hundredth of those that may cancel in the sums over the pixels
  long double M2 = fabsl(u20) + fabsl(u02) + 2 * fabsl(u11) + (A[2][0] + A[0][2] + 2 * A[1][1]) / n2 / 100, M3 = fabsl(u30) + 3 * fabsl(u12) + 3 * fabsl(u21) + fabsl(u03) + (A[3][0] + 3 * A[1][2] + 3 * A[2][1] + A[0][3]) / n3 / 100; mag[0] = M2; mag[1] = M2 * M2; mag[2] = mag[3] = M3 * M3; mag[4] = mag[6] = M3 * M3 * M3 * M3 * 4; mag[5] = M2 * M3 * M3 * 2;
  return true;
}
static void body() {
  Dims2 d = gen_dims2(chance(1, 20) ? 9000 : 800, 300); bool large = chance(1, 300); if (large) { d.r = (int)range(250, 700); d.c = (int)range(250, 700); if (chance(1, 30)) { d.r = (int)range(2903, 3100); d.c = (int)range(2903, 3100); label("giant: more than 2^31/255 elements"); } } simple_mat m = new_u8(d.r, d.c, 1); if (chance(1, 3)) { Bulk b = bulk(); int ci = (int)b.below(d.r), cj = (int)b.below(d.c), rr = (int)range(1, 12); for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) U8(m)[(size_t)i * d.c + j] = (i - ci) * (i - ci) + 2 * (j - cj) * (j - cj) <= rr * rr ? 255 : 0; }
  double e[7], g[7], mg[7]; if (!ref(U8(m), d.r, d.c, e, mg)) discard(); Bytes src = snapshot(m); describe("Hu moments of %dx%d: %s", d.r, d.c, dump(src.data(), src.size()).c_str());
  double buf[9]; for (double& x : buf) x = -7; calc_hu_moment(buf + 1, m); REQUIRE(buf[0] == -7 && buf[8] == -7, "more than seven moments are written"); memcpy(g, buf + 1, sizeof g); REQUIRE(unchanged(src, m), "the image changed");
  for (int k = 0; k < 7; k++) REQUIRE(fabs(g[k] - e[k]) <= 1e-9 * mg[k], "moment %d of %dx%d is %.12g instead of %.12g", k + 1, d.r, d.c, g[k], e[k]);
  // the same shape elsewhere in a larger image
  int T = (int)range(0, 9), L = (int)range(0, 9), R = d.r + T + (int)range(0, 6), C = d.c + L + (int)range(0, 6); simple_mat q = create_simple_mat(R, C, 1, 1); for (int i = 0; i < d.r; i++) memcpy(U8(q) + (size_t)(i + T) * C + L, U8(m) + (size_t)i * d.c, d.c);
  double h[7]; calc_hu_moment(h, q); for (int k = 0; k < 7; k++) REQUIRE(fabs(h[k] - g[k]) <= 2e-9 * mg[k], "moving the shape by %d,%d changes moment %d from %.12g to %.12g", T, L, k + 1, g[k], h[k]);
  auto total = [](const double* a, const double* b) { double t = 0; for (int k = 0; k < 7; k++) t += fabs(a[k] + b[k]); return t; };
  if (total(e, e) > 1e-12) { double s = hypercv_match_shapes(m, m), t = hypercv_match_shapes(m, q); REQUIRE(near(s, 1, 1e-9, 0), "a shape matches itself with %.12g", s); REQUIRE(near(t, 1, 1e-7, 0), "a moved shape matches with %.12g", t); }
  Dims2 d2 = gen_dims2(500, 200); simple_mat o = new_u8(d2.r, d2.c, 1); double e2[7], mg2[7];
  if (ref(U8(o), d2.r, d2.c, e2, mg2) && total(e, e2) > 1e-12) {
    double a = 0, b = total(e, e2), ta = 0; for (int k = 0; k < 7; k++) { a += fabs(e[k] - e2[k]); ta += 1e-8 * (mg[k] + mg2[k]); }
    double s = hypercv_match_shapes(m, o), t = hypercv_match_shapes(o, m); REQUIRE(near(s, 1 - a / b, 0, 1e-7 + ta / b * 2), "match %.12g instead of %.12g", s, 1 - a / b); REQUIRE(near(s, t, 0, 1e-9), "match %.12g one way, %.12g the other", s, t); label("two shapes");
  }
  delete_simple_mat(m); delete_simple_mat(q); delete_simple_mat(o); label_if(T + L > 0, "moved"); label_if(large, "up to 490000 pixels"); nontrivial(d.r * d.c > 2);
}
namespace pbt { Property property_under_test = {"C26",
  "gray images of drawn size and pixels, among them ellipses, against moments in long double about the pixel nearest to the centre of mass; the same shape moved in a larger image, matching with itself, moved and with another image both ways; non-trivial: more than two pixels",
  160000, 960000, 100, body, {"8-bit images of one channel that are not all zero and whose centre of mass is not half way between two pixels; two shapes whose moments are all zero are not matched"}}; }
