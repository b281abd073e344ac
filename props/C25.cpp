// C25: normalisation, equalisation, linear stretch
#include "hcv.h"
static void normalise() {
  g_giant = 12; Dims2 d = gen_dims2(chance(1, 20) ? 30000 : 1500, 1000); int dt = pick({1, 4}), ty = pick({NORM_INF, NORM_L1, NORM_L2, NORM_MINMAX}); int ch = weighted({3, 1, 1}); ch = ch == 0 ? 1 : ch == 1 ? 3 : (int)range(2, 5); size_t n = (size_t)d.r * d.c * ch; simple_mat m, o = dirty(d.r, d.c, dt, ch); bool disp = chance(1, 2);
  if (dt == 1) m = new_u8(d.r, d.c, ch); else { m = create_simple_mat(d.r, d.c, 4, ch); Bulk b = bulk(); double amp = chance(1, 4) ? pow(10, (double)range(-28, 29)) : pick({1.0, 300.0, 20000.0}), mid = chance(1, 2) ? 0 : b.sym(amp); bool pos = chance(1, 3); for (size_t i = 0; i < n; i++) F32(m)[i] = (float)(pos ? fabs(mid + b.sym(amp)) : mid + b.sym(amp)); if (chance(1, 3)) for (size_t i = 0; i < n; i++) F32(m)[i] = -fabsf(F32(m)[i]); if (chance(1, 20)) for (size_t i = 1; i < n; i++) F32(m)[i] = F32(m)[0]; }
  float al = (float)range(-80, 2400) / 4, be = (float)range(-80, 2400) / 4; if (chance(1, 20)) (chance(1, 2) ? al : be) = (float)range(-100000, 300000); if (dt == 1 && (ty == NORM_L1 || ty == NORM_L2)) al *= ty == NORM_L1 ? (float)n / 4 : (float)sqrt((double)n) / 2;
  auto V = [&](size_t i) { return dt == 1 ? (double)U8(m)[i] : (double)F32(m)[i]; };
  double l1 = 0, l2 = 0, mx = 0, lo = V(0), hi = V(0); for (size_t i = 0; i < n; i++) { double v = V(i); l1 += fabs(v); l2 += v * v; mx = std::max(mx, fabs(v)); lo = std::min(lo, v); hi = std::max(hi, v); } l2 = sqrt(l2);
  if (ty == NORM_MINMAX ? hi - lo < 1e-4 * mx || hi == lo : mx == 0) discard();
  Bytes src = snapshot(m); describe("normalise %dx%dx%d type %d, norm %d, %g %g", d.r, d.c, ch, dt, ty, al, be);
  if (disp) hypercv_normalize(m, o, al, be, ty); else if (dt == 1) hypercv_normalize_uchar(m, o, al, be, ty); else hypercv_normalize_float(m, o, al, be, ty);
  REQUIRE(unchanged(src, m), "normalisation changed its input"); REQUIRE(o->rows == d.r && o->cols == d.c && o->channels == ch && o->data_type == dt, "normalisation changed the size or type of its output");
  double a = std::min(al, be), b = std::max(al, be);
  for (size_t i = 0; i < n; i++) {
    double e = ty == NORM_L1 ? V(i) * al / l1 : ty == NORM_L2 ? V(i) * al / l2 : ty == NORM_INF ? V(i) * al / mx : (V(i) - lo) * (b - a) / (hi - lo) + a;
    double tol = ty == NORM_MINMAX ? 1e-6 * (fabs(a) + fabs(b)) + 1e-6 * (b - a) * mx / (hi - lo) : 1e-6 * fabs(e); if (tol > 0.05 * (fabs(e) + 1)) tol = 0.05 * (fabs(e) + 1);
    if (dt == 4) REQUIRE(fabs(F32(o)[i] - e) <= tol + 1e-30, "norm %d, %g %g: %.9g became %.9g instead of %.9g", ty, al, be, V(i), F32(o)[i], e);
    else { double c = e < 0 ? 0 : e > 255 ? 255 : e; REQUIRE(fabs(U8(o)[i] - c) <= 0.501 + tol, "norm %d, %g %g: %g became %d instead of %.6g", ty, al, be, V(i), U8(o)[i], e); }
  }
  delete_simple_mat(m); delete_simple_mat(o); label_if(ch > 1, "several channels"); label(ty == NORM_L1 ? "L1" : ty == NORM_L2 ? "L2" : ty == NORM_INF ? "maximum" : "range"); nontrivial(n > 1);
}
static void equalise() {
  g_giant = 0; Dims2 d = gen_dims2(chance(1, 20) ? 60000 : 2500, 1500); bool big = chance(1, 3000); if (big) { d.r = (int)range(2000, 3000); d.c = 9000000 / d.r; label("nine million pixels"); } simple_mat m = new_u8(d.r, d.c, 1), o = dirty(d.r, d.c, 1, 1); Bytes src = snapshot(m); long n = (long)d.r * d.c;
  describe("equalise %dx%d: %s", d.r, d.c, dump(src.data(), src.size()).c_str()); HisEqualization(m, o); REQUIRE(unchanged(src, m), "equalisation changed its input");
  long c[256] = {0}; for (unsigned char v : src) c[v]++; int lv = 0; for (int i = 0; i < 256; i++) lv += c[i] > 0; for (int i = 1; i < 256; i++) c[i] += c[i - 1];
  for (long i = 0; i < n; i++) REQUIRE(U8(o)[i] == c[src[i]] * 255 / n, "equalised %d became %d instead of %ld", src[i], U8(o)[i], c[src[i]] * 255 / n);
  delete_simple_mat(m); delete_simple_mat(o); label("equalisation"); nontrivial(lv > 2);
}
static void stretch() {
  Dims d = gen_dims(2000, 800); if ((long)d.s * d.l < 2) d.s++; size_t plane = (size_t)d.s * d.l; hyper_mat m = create_hyper_mat(d.s, d.l, d.b, 4, "bsq"), o = create_hyper_mat(d.s, d.l, d.b, 1, "bsq"); gen_waves(m); memset(o->data, 0xA5, cube_bytes(o)); float* p = (float*)m->data; Bulk b = bulk();
  bool neg = false; for (int k = 0; k < d.b; k++) { double amp = pow(10, b.sym(b.below(4) ? 3 : 8)), mid = b.below(3) ? b.sym(3) * amp : 0; bool ints = b.below(3) == 0; for (size_t i = 0; i < plane; i++) { double v = mid + b.sym(amp); p[k * plane + i] = (float)(ints ? floor(v) : b.below(12) ? v : 0); } float* q = p + k * plane; if (*std::min_element(q, q + plane) == *std::max_element(q, q + plane)) q[0] += 1 + fabsf(q[0]); neg |= *std::max_element(q, q + plane) < 0; }
  Bytes src = snapshot(m); describe("stretch %dx%dx%d", d.s, d.l, d.b); hyper_mat_linear_tension(m, o); REQUIRE(unchanged(src, m), "stretching changed its input"); check_shape(o, d, 1, 0, "stretched cube");
  for (int k = 0; k < d.b; k++) {
    float* q = p + k * plane; double lo = *std::min_element(q, q + plane), hi = *std::max_element(q, q + plane), R = hi - lo;
    for (size_t i = 0; i < plane; i++) {
      double e = (q[i] - lo) * 255 / R, dl = 1e-4 + 3e-7 * 255 * (fabs(q[i]) + 2 * fabs(lo) + fabs(hi)) / R; int g = ((unsigned char*)o->data)[k * plane + i]; bool ok = false;
      for (double t : {floor(e - dl), floor(e + dl), e}) { int r = (int)floor(t); int x = r <= 0 ? (q[i] == 0 ? 0 : 1) : r >= 255 ? 255 : r; ok |= x == g; } if (dl > 0.5 && fabs(g - e) <= dl + 1) ok = true;
      REQUIRE(ok, "band %d spanning %g..%g: %.9g became %d instead of %.6g", k, lo, hi, q[i], g, e);
    }
  }
  delete_hyper_mat(m); delete_hyper_mat(o); label("linear stretch"); label_if(neg, "a band of negative values"); nontrivial(plane > 2);
}
static void body() { g_huge = 600; g_giant = 0; switch (weighted({4, 2, 3})) { case 0: normalise(); break; case 1: equalise(); break; default: stretch(); } }
namespace pbt { Property property_under_test = {"C25",
  "8-bit and float images normalised by four norms to drawn ranges, 8-bit images equalised, float cubes stretched band by band, against their definitions; non-trivial: more than one pixel or two levels",
  360000, 2160000, 100, body, {"norms are not asked of a zero image nor ranges of a constant one", "the stretch reserves 0 for zero pixels: others become at least 1"}}; }
