// C17: flips, pyramids, rotation
#include "hcv.h"
static void flip() {
  Dims2 d = gen_dims2(chance(1, 20) ? 20000 : 1500, 1200); int ch = (int)range(1, 4), code = pick({0, 1, -1}); bool direct = code != -1 && chance(1, 2);
  simple_mat m = new_u8(d.r, d.c, ch), o = dirty(d.r, d.c, 1, ch); Bytes src = snapshot(m);
  describe("flip %d of %dx%dx%d%s", code, d.r, d.c, ch, direct ? " directly" : "");
  if (!direct) simple_mat_flip(m, o, code); else if (code) simple_mat_flip_horizontal(m, o); else simple_mat_flip_vertical(m, o);
  REQUIRE(unchanged(src, m), "flipping changed its input"); REQUIRE(o->rows == d.r && o->cols == d.c && o->channels == ch, "flipping changed the size of its output");
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) for (int k = 0; k < ch; k++) {
    int si = code == 1 ? i : d.r - 1 - i, sj = code == 0 ? j : d.c - 1 - j;
    REQUIRE(U8(o)[((size_t)i * d.c + j) * ch + k] == src[((size_t)si * d.c + sj) * ch + k], "flip %d: pixel (%d,%d) channel %d of %dx%dx%d is not the source's (%d,%d)", code, i, j, k, d.r, d.c, ch, si, sj);
  }
  delete_simple_mat(m); delete_simple_mat(o); label(code == 0 ? "vertical flip" : code == 1 ? "horizontal flip" : "both flips"); nontrivial(d.r > 1 && d.c > 1);
}
static const double K[] = {.0625, .25, .375, .25, .0625};
static double cl(double v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
// 5x5 gaussian with repeated borders of an image given by a function; f: weight factor
template <class F> static double blur_at(F px, int R, int C, int i, int j, double f) {
  double s = 0;
  for (int a = -2; a <= 2; a++) { double t = 0; int y = i + a < 0 ? 0 : i + a >= R ? R - 1 : i + a; for (int b = -2; b <= 2; b++) { int x = j + b < 0 ? 0 : j + b >= C ? C - 1 : j + b; t += K[b + 2] * f * px(y, x); } s += K[a + 2] * f * cl(t); }
  return cl(s);
}
static void pyramid() {
  bool up = chance(1, 2); Dims2 d = gen_dims2(up ? 600 : 1500, 300, 2); int ch = chance(1, 3) ? 3 : 1;
  simple_mat m = new_u8(d.r, d.c, ch); Bytes src = snapshot(m); int R = up ? 2 * d.r : (d.r + 1) / 2, C = up ? 2 * d.c : (d.c + 1) / 2;
  simple_mat o = dirty(R, C, 1, ch); describe("pyramid %s of %dx%dx%d", up ? "up" : "down", d.r, d.c, ch);
  if (up) hypercv_pyramid_up(m, o); else hypercv_pyramid_down(m, o);
  REQUIRE(unchanged(src, m), "the source changed"); REQUIRE(o->rows == R && o->cols == C && o->channels == ch, "output changed its size");
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int k = 0; k < ch; k++) {
    double e = up ? blur_at([&](int y, int x) { return y % 2 || x % 2 ? 0.0 : (double)src[((size_t)(y / 2) * d.c + x / 2) * ch + k]; }, R, C, i, j, 2)
                  : blur_at([&](int y, int x) { return (double)src[((size_t)y * d.c + x) * ch + k]; }, d.r, d.c, 2 * i, 2 * j, 1);
    int g = U8(o)[((size_t)i * C + j) * ch + k];
    REQUIRE(fabs(g - e) <= 0.502, "pyramid %s: pixel (%d,%d) channel %d of %dx%dx%d is %d instead of %.6g", up ? "up" : "down", i, j, k, d.r, d.c, ch, g, e);
  }
  delete_simple_mat(m); delete_simple_mat(o); label(up ? "pyramid up" : "pyramid down"); label_if(!up && (d.r % 2 || d.c % 2), "odd size"); nontrivial();
}
static void rotate() {
  Dims d = gen_dims(chance(1, 20) ? 30000 : 1500, 600); if ((double)(d.s + d.l) * (d.s + d.l) * d.b > 2e6) { d.s = std::min(d.s, 400); d.l = std::min(d.l, 400); d.b = std::min(d.b, 3); } int dt = gen_type(), e = esize(dt), il = chance(3, 4) ? 2 : gen_il();   // a turned strip becomes a square
  double ang = chance(1, 40) ? 45.0 * (double)range(-4000, 4000) : chance(1, 2) ? 90.0 * (double)range(-4, 4) : chance(1, 2) ? (double)range(-720, 720) : (double)range(-36000, 36000) / 100;
  hyper_mat m = gen_cube(d, dt, il);
  for (size_t p = 0, n = (size_t)d.s * d.l * d.b; p < n; p++) ((unsigned char*)m->data)[p * e] |= 1;   // no element is zero
  Bytes src = snapshot(m); std::vector<float> w = waves(m);
  describe("rotate %dx%dx%d type %d %s by %g", d.s, d.l, d.b, dt, ILS[il], ang);
  hyper_mat r = hyper_mat_rotate(m, ang);
  check_elements(m, src, il, "source of a rotation"); REQUIRE(same_waves(w, m), "rotation changed the source's wavelengths");
  REQUIRE(r && r->bands == d.b && r->data_type == dt && memcmp(r->interleave, "bip", 3) == 0, "rotated cube has %d bands, type %d, %.3s", r->bands, r->data_type, r->interleave);
  REQUIRE(same_waves(w, r), "rotation changed the wavelengths");
  double t = ang * M_PI / 180, c = cos(t), s = sin(t); int h = (d.l + 1) / 2, ww = (d.s + 1) / 2;
  double W = 2 * (ww * fabs(c) + h * fabs(s)), H = 2 * (h * fabs(c) + ww * fabs(s));
  REQUIRE(r->samples <= W + 0.01 && r->samples > W - 1.01 && r->lines <= H + 0.01 && r->lines > H - 1.01, "rotated by %g, %dx%d became %dx%d instead of about %.2fx%.2f (samples x lines)", ang, d.s, d.l, r->samples, r->lines, W, H);
  bool right = fmod(ang, 90) == 0;
  std::vector<std::vector<int>> cand((size_t)r->samples * r->lines); std::vector<char> must(cand.size(), 0);
  for (int i = 0; i < d.l; i++) for (int j = 0; j < d.s; j++) {
    double y = (i - (d.l - 1) / 2.0) * c + (j - (d.s - 1) / 2.0) * s + r->lines / 2.0, x = (j - (d.s - 1) / 2.0) * c - (i - (d.l - 1) / 2.0) * s + r->samples / 2.0;
    if (right) { y = floor(y * 2 + 0.5) / 2; x = floor(x * 2 + 0.5) / 2; }
    double eps = right ? 0 : 1e-4; int n = 0, q = -1;
    for (int a = (int)floor(y - eps); a <= (int)floor(y + eps); a++) for (int b = (int)floor(x - eps); b <= (int)floor(x + eps); b++) if (a >= 0 && a < r->lines && b >= 0 && b < r->samples) { q = a * r->samples + b; cand[q].push_back(i * d.s + j); n++; }
    bool sure = floor(y - eps) == floor(y + eps) && floor(x - eps) == floor(x + eps);
    REQUIRE(n || !sure || eps, "line %d sample %d of %dx%d rotated by %g has no place in %dx%d", i, j, d.s, d.l, ang, r->samples, r->lines);
    if (n == 1 && sure) must[q] = 1;
  }
  size_t px = (size_t)d.b * e; Bytes zero(px, 0), spec(px); const unsigned char* rd = (unsigned char*)r->data;
  for (size_t q = 0; q < cand.size(); q++) {
    const unsigned char* g = rd + q * px; bool ok = !must[q] && memcmp(g, zero.data(), px) == 0;
    if (right) REQUIRE(cand[q].size() <= 1, "two pixels meet at a right angle");
    for (size_t z = 0; z < cand[q].size() && !ok; z++) { int i = cand[q][z] / d.s, j = cand[q][z] % d.s; for (int k = 0; k < d.b; k++) memcpy(&spec[(size_t)k * e], src.data() + off(il, d, i, j, k) * e, e); ok = memcmp(g, spec.data(), px) == 0; }
    REQUIRE(ok, "%dx%d rotated by %g: line %d sample %d of the result holds neither %s", d.s, d.l, ang, (int)q / r->samples, (int)q % r->samples, cand[q].empty() ? "zeros" : must[q] ? "the pixel that turns there" : "zeros nor a pixel that turns there");
  }
  delete_hyper_mat(m); delete_hyper_mat(r); label(right ? "rotation by a right angle" : "rotation by any angle"); nontrivial(d.s > 1 && d.l > 1 && ang != 0);
}
static void body() { switch (weighted({3, 4, 4})) { case 0: flip(); break; case 1: pyramid(); break; default: rotate(); } }
namespace pbt { Property property_under_test = {"C17",
  "images of 1..4 channels flipped; gray and colour images one pyramid level down or up against the direct 5x5 sum; cubes of every type rotated by right or arbitrary angles, each result pixel checked to hold the whole spectrum of a source pixel that turns there or zeros; non-trivial: more than one row and column",
  160000, 960000, 50, body, {"images are 8-bit and, for pyramids, at least 2x2"}}; }
