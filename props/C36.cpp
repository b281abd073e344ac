// C36: wavelet bases
#include "hcv.h"
extern "C" { wavelet_base* set_wavelet_base(int) __attribute__((weak)); void wavelet_base_free(wavelet_base*) __attribute__((weak)); }
typedef std::vector<double> V;
static V conv(const V& x, const double* h, int n) { V y(x.size() + n - 1, 0.0); for (size_t i = 0; i < x.size(); i++) for (int k = 0; k < n; k++) y[i + k] += x[i] * h[k]; return y; }
static V down(const V& x, int phase) { V y; for (size_t i = phase; i < x.size(); i += 2) y.push_back(x[i]); return y; }
static V up(const V& x, int phase, size_t n) { V y(n, 0.0); for (size_t i = 0; i < x.size(); i++) if (2 * i + phase < n) y[2 * i + phase] = x[i]; return y; }
static void body() {
  if (!set_wavelet_base || !wavelet_base_free) discard();
  if (chance(1, 12)) { int t; do t = chance(1, 2) ? (int)range(-3, 9) : (int)range(-100000, 100000); while (t == HYPERCV_WAVE_DB3 || t == HYPERCV_WAVE_BIOR3_7); describe("wavelet %d", t); must_reject("an unknown wavelet", [&] { set_wavelet_base(t); }); label("unknown wavelet"); nontrivial(); return; }
  bool db = chance(1, 2); int type = db ? HYPERCV_WAVE_DB3 : HYPERCV_WAVE_BIOR3_7; label(db ? "db3" : "bior3.7"); bool other = chance(1, 2);
  wavelet_base* first = set_wavelet_base(type); REQUIRE(first && first->len == (db ? 6 : 16), "a base of %d coefficients", first ? first->len : -1);
  wavelet_base* o = other ? set_wavelet_base(db ? HYPERCV_WAVE_BIOR3_7 : HYPERCV_WAVE_DB3) : NULL;
  // a base belongs to its caller: spoiling or freeing one leaves the next as it should be
  int n = first->len; int spoil = (int)draw(3); if (spoil) { double* f[4] = {first->LO_D, first->HI_D, first->LO_R, first->HI_R}; if (spoil == 1) f[draw(4)][draw(n)] += 7; else for (double* q : f) memset(q, 0xff, n * sizeof(double)); label("after another copy was overwritten"); }
  bool early = chance(1, 2); if (early) wavelet_base_free(first);
  wavelet_base* b = set_wavelet_base(type); REQUIRE(b->len == n, "a base of %d coefficients", b->len);
  // a signal
  int len = 1 + dim(400), kind = (int)draw(5); V x(len); double amp = pick({1.0, 255.0, 0.01, 10000.0}); int p = (int)draw(len); double c[3] = {(double)range(-9, 9), (double)range(-9, 9), (double)range(-9, 9)};
  for (int i = 0; i < len; i++) { double u = (double)i / len; x[i] = amp * (kind == 0 ? (double)range(-1000, 1000) / 1000 : kind == 1 ? i == p : kind == 2 ? i >= p : kind == 3 ? (c[0] + c[1] * u + c[2] * u * u) / 9 : (i & 1 ? -1 : 1)); }
  int phase = (int)draw(2); static const char* kn[] = {"noise", "impulse", "step", "parabola", "alternating"}; describe("%s, %s of %d samples, amplitude %g, phase %d", db ? "db3" : "bior3.7", kn[kind], len, amp, phase); label(kn[kind]);
  // analysis and synthesis give the signal back, n-1 samples later
  V lo = conv(x, b->LO_D, n), hi = conv(x, b->HI_D, n); size_t full = lo.size();
  V a = up(down(lo, phase), phase, full), d = up(down(hi, phase), phase, full), ya = conv(a, b->LO_R, n), yd = conv(d, b->HI_R, n);
  for (int i = 0; i < len; i++) REQUIRE(fabs(ya[i + n - 1] + yd[i + n - 1] - x[i]) <= 1.2e-3 * amp, "sample %d comes back as %.9g, was %.9g", i, ya[i + n - 1] + yd[i + n - 1], x[i]);
  for (int i = 0; i < n - 1; i++) REQUIRE(fabs(ya[i] + yd[i]) <= 1.2e-3 * amp, "something comes back before the signal: %.9g", ya[i] + yd[i]);
  // polynomials up to degree 2 leave no detail away from the ends
  if (kind == 3) { for (int i = n - 1; i < len; i++) REQUIRE(fabs(hi[i]) <= 1e-3 * amp, "a parabola leaves a detail of %.9g", hi[i]); }
  // the orientation: the analysis filters are stored back to front
  if (db) { static const double h[6] = {0.33267055, 0.80689151, 0.45987750, -0.13501102, -0.08544127, 0.03522629}; for (int k = 0; k < 6; k++) { REQUIRE(fabs(b->LO_D[k] - h[k]) < 1e-4 && fabs(b->LO_R[k] - h[5 - k]) < 1e-4, "low-pass coefficient %d: %g and %g", k, b->LO_D[k], b->LO_R[k]); REQUIRE(fabs(b->HI_R[k] - (k & 1 ? 1 : -1) * h[k]) < 1e-4 && fabs(b->HI_D[k] - (k & 1 ? -1 : 1) * h[5 - k]) < 1e-4, "high-pass coefficient %d: %g and %g", k, b->HI_D[k], b->HI_R[k]); } }
  if (!early) wavelet_base_free(first); wavelet_base_free(b); wavelet_base_free(o); wavelet_base_free(NULL); nontrivial();
}
namespace pbt { Property property_under_test = {"C36",
  "a base, a generated signal (noise, impulse, step, parabola, alternating; up to 400 samples) split into approximation and detail with the base's analysis filters at either phase and put together with its synthesis filters by the check; or an unknown wavelet, which must be rejected; every case is non-trivial",
  400000, 2400000, 500, body, {"coefficients have four decimals, so signals come back to about a thousandth", "the transform of images is unfinished in the library and not asked for"}}; }
