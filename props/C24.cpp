// C24: Fourier transform
#include "hcv.h"
typedef std::vector<double> V;
// direct evaluation in double precision, with the angle reduced exactly
static void ref(const V& re, const V& im, int r, int c, int sign, V& ro, V& io) {
  size_t n = (size_t)r * c; ro.assign(n, 0); io.assign(n, 0); std::vector<double> t1r(n), t1i(n);
  auto tw = [&](int a, int b, int len, double& co, double& si) { double t = 2 * M_PI * (double)((long)a * b % len) / len; co = cos(t); si = sign * sin(t); };
  for (int x = 0; x < r; x++) for (int j = 0; j < c; j++) { double sr = 0, si = 0; for (int y = 0; y < c; y++) { double co, s; tw(j, y, c, co, s); sr += re[x * c + y] * co - im[x * c + y] * s; si += re[x * c + y] * s + im[x * c + y] * co; } t1r[x * c + j] = sr; t1i[x * c + j] = si; }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double sr = 0, si = 0; for (int x = 0; x < r; x++) { double co, s; tw(i, x, r, co, s); sr += t1r[x * c + j] * co - t1i[x * c + j] * s; si += t1r[x * c + j] * s + t1i[x * c + j] * co; } ro[i * c + j] = sr; io[i * c + j] = si; }
}
static long smooth(long n) {           // the smallest product of 2s, 3s and 5s, with at most fourteen 3s, that is at least n
  long best = 1; while (best < n) best *= 2;
  for (long a = 1; a <= best; a *= 5) { long b = a; for (int k = 0; k < 15 && b <= best; k++, b *= 3) { long v = b; while (v < n) v *= 2; best = std::min(best, v); } }
  return best;
}
static void sizes() {
  long n; int m = weighted({4, 4, 3, 1});
  if (m == 0) n = range(1, 20000);
  else if (m == 1) n = range(0, 2125763999);
  else if (m == 2) { double e = unit() * 31; n = (long)pow(2, e); n += range(-3, 3); }
  else n = range(2125764001, 2147483647);
  if (chance(1, 3)) { long k = n > 0 && n < 2125764000 ? smooth(n) : n; n = k + range(-1, 1); }
  if (n < 1) n = 1;
  if (n == 2125764000 || n > 2147483647) discard();
  describe("optimal size for %ld", n); int g = get_optimal_DFT_size((int)n); long w = n > 2125764000 ? -1 : smooth(n);
  REQUIRE(g == w, "the optimal size for %ld is %d instead of %ld", n, g, w); label("optimal size"); nontrivial(w != n && w > 0);
}
static void magnitude() {
  g_huge = 100; Dims2 d = gen_dims2(2000, 700); size_t n = (size_t)d.r * d.c; simple_mat a = create_simple_mat(d.r, d.c, 4, 1), b = create_simple_mat(d.r, d.c, 4, 1), o = dirty(d.r, d.c, 4, 1); Bulk q = bulk(); double sc = pow(10, (double)range(-3, 6)), si = chance(1, 3) ? sc * 1e-3 : sc; int den = chance(1, 3) ? (int)range(2, 9) : 0; bool flat = chance(1, 20);
  for (size_t i = 0; i < n; i++) { F32(a)[i] = den && q.below(den) ? 0 : (float)q.sym(sc); F32(b)[i] = den && q.below(den) ? 0 : (float)q.sym(si); if (flat && i) { F32(a)[i] = F32(a)[0]; F32(b)[i] = F32(b)[0]; } }
  Bytes sa = snapshot(a), sb = snapshot(b); describe("magnitude of %dx%d up to %g", d.r, d.c, sc); hypercv_magnitude(a, b, o); REQUIRE(unchanged(sa, a) && unchanged(sb, b), "the magnitude changed its input");
  for (size_t i = 0; i < n; i++) { double w = hypot((double)F32(a)[i], (double)F32(b)[i]); REQUIRE(near(F32(o)[i], w, 1e-5, 0), "magnitude %zu of %g%+gi is %g", i, F32(a)[i], F32(b)[i], F32(o)[i]); }
  delete_simple_mat(a); delete_simple_mat(b); delete_simple_mat(o); label("magnitude"); nontrivial(n > 1);
}
static void body() { g_huge = 600; g_giant = 0;
  if (chance(1, 4)) return sizes();
  if (chance(1, 12)) return magnitude();
  g_huge = 0; Dims2 d = chance(1, 40) ? gen_dims2(chance(1, 6) ? 1200 : 400, 400) : gen_dims2(90, 60); int r = d.r, c = d.c; size_t n = (size_t)r * c; bool us = chance(1, 2); int dt = us ? 12 : 1; double amp = us ? 65535 : 255;
  simple_mat s = create_simple_mat(r, c, dt, 1), re = dirty(r, c, 4, 1), im = dirty(r, c, 4, 1); if (us) fill_bytes(s->data, n * 2); else fill_u8(U8(s), n);
  V x(n), z(n, 0), wr, wi; double sum = 0; for (size_t i = 0; i < n; i++) { x[i] = us ? ((unsigned short*)s->data)[i] : U8(s)[i]; sum += x[i]; }
  Bytes b = snapshot(s); describe("DFT of %dx%d %s", r, c, us ? "16-bit" : "8-bit"); hypercv_dft(s, re, im); REQUIRE(unchanged(b, s), "the DFT changed its input");
  ref(x, z, r, c, -1, wr, wi); double tol = sum * (r + c) * 2e-6 + 1e-3; const float *gr = F32(re), *gi = F32(im);
  for (size_t i = 0; i < n; i++) REQUIRE(fabs(gr[i] - wr[i]) <= tol && fabs(gi[i] - wi[i]) <= tol, "coefficient (%zu,%zu) of %dx%d is %g%+gi instead of %g%+gi", i / c, i % c, r, c, gr[i], gi[i], wr[i], wi[i]);
  label_if(us, "16-bit"); bool anyim = false; for (double v : wi) anyim |= fabs(v) > 1; nontrivial(anyim);
  int what = (int)draw(4);
  if (what == 0) {           // there and back
    simple_mat o = dirty(r, c, dt, 1); hypercv_idft(re, im, o); double slack = us ? 0.5 + 65535.0 * (r + c) * 4e-6 : 0.5;
    for (size_t i = 0; i < n; i++) { double g = us ? ((unsigned short*)o->data)[i] : U8(o)[i]; REQUIRE(fabs(g - x[i]) <= slack, "pixel (%zu,%zu) of %dx%d is %g after DFT and inverse DFT, was %g", i / c, i % c, r, c, g, x[i]); }
    label("round trip"); delete_simple_mat(o);
  } else if (what == 1) {    // inverse of any conjugate-symmetric spectrum, with values below and above the pixel range
    Bulk q = bulk(); double off = (double)draw(3) - 1; for (size_t i = 0; i < n; i++) x[i] = (q.unit() * 1.6 - 0.3 + off * 0.3) * amp; ref(x, z, r, c, -1, wr, wi); double as = 0; for (size_t i = 0; i < n; i++) { F32(re)[i] = (float)wr[i]; F32(im)[i] = (float)wi[i]; as += fabs(wr[i]) + fabs(wi[i]); }
    simple_mat o = dirty(r, c, dt, 1); Bytes br = snapshot(re), bi = snapshot(im); hypercv_idft(re, im, o); REQUIRE(unchanged(br, re) && unchanged(bi, im), "the inverse DFT changed its input"); double t2 = as / n * (r + c) * 2e-6 + 1e-3;
    for (size_t i = 0; i < n; i++) { double g = us ? ((unsigned short*)o->data)[i] : U8(o)[i], w = std::min(std::max(x[i], 0.0), amp); REQUIRE(fabs(g - w) <= 0.5 + t2, "inverse DFT: pixel (%zu,%zu) of %dx%d is %g instead of %g", i / c, i % c, r, c, g, w); }
    label("inverse with saturation"); delete_simple_mat(o);
  } else if (what == 2) {    // magnitude
    Bulk q = bulk(); double sc = pow(10, (double)range(-3, 6)); for (size_t i = 0; i < n; i++) { F32(re)[i] = (float)q.sym(sc); F32(im)[i] = (float)q.sym(sc); }
    simple_mat o = dirty(r, c, 4, 1); hypercv_magnitude(re, im, o); for (size_t i = 0; i < n; i++) { double w = hypot((double)F32(re)[i], (double)F32(im)[i]); REQUIRE(near(F32(o)[i], w, 1e-5, 0), "magnitude (%zu,%zu) of %g%+gi is %g", i / c, i % c, F32(re)[i], F32(im)[i], F32(o)[i]); }
    label("magnitude"); delete_simple_mat(o);
  } else if (!us) {          // centred spectrum
    simple_mat o = dirty(r, c, 1, 1); V m(n); for (size_t i = 0; i < n; i++) m[i] = x[i] * ((i / c + i % c) % 2 ? -1 : 1); ref(m, z, r, c, -1, wr, wi); hypercv_dft_frespectrum(s, o); REQUIRE(unchanged(b, s), "the spectrum changed its input");
    for (size_t i = 0; i < n; i++) { double w = hypot(wr[i], wi[i]) / sqrt((double)n); w = std::min(w, 255.0); REQUIRE(fabs(U8(o)[i] - w) <= 0.5 + 2 * tol / sqrt((double)n), "spectrum (%zu,%zu) of %dx%d is %d instead of %g", i / c, i % c, r, c, U8(o)[i], w); }
    label("centred spectrum"); delete_simple_mat(o);
  }
  delete_simple_mat(s); delete_simple_mat(re); delete_simple_mat(im);
}
namespace pbt { Property property_under_test = {"C24",
  "8- and 16-bit gray images up to 90 (rarely 1200) pixels against a separable double-precision DFT; forward, inverse, round trip, magnitude, centred spectrum; DFT sizes against a search over products of 2, 3 and 5; non-trivial: a spectrum with an imaginary part, a size that has to grow",
  240000, 1440000, 500, body, {"the transform is unnormalised forward and divides by the pixel count backward", "spectra given to the inverse belong to real images", "float angles: coefficients agree to 2e-6 of the sum of the pixels per row and column"}}; }
