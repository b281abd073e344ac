// C08: numeric type conversions keep positions and saturate
#include "hcv.h"
static float gen_float(Bulk& b, int mode) {
  switch (mode == 9 ? (int)b.below(9) : mode) {
    case 0: return (float)b.sym(300);
    case 1: return (float)((double)b.below(700) - 200) + 0.5f;               // ties
    case 2: return (float)b.sym(70000);
    case 3: return (float)b.sym(5e9);
    case 4: { static const float e[] = {0, -0.f, 255, 255.49f, 255.5f, 254.5f, 256, -0.5f, -0.49f, -0.51f, 127, 127.5f, 126.5f, 128, -128, -128.5f, -129, 32767, 32767.5f, 32768, -32768, -32768.5f, 65535, 65534.5f, 65535.5f, 65536, 2147483520.f, 2147483648.f, -2147483648.f, -2147483904.f, 3e9f, -3e9f, 1e30f, -1e30f, 3.4e38f, -3.4e38f, INFINITY, -INFINITY, 1e-30f, 1e-42f}; return e[b.below(sizeof e / sizeof *e)]; }
    case 5: return (float)b.below(256);
    case 6: return (float)(b.sym(1) * pow(10, (double)b.below(40) - 20));
    case 7: return (float)((double)b.below(140000) / 2 - 5000);
    default: { uint32_t u = (uint32_t)b.next(); float f; memcpy(&f, &u, 4); return f != f ? 1.5f : f; }
  }
}
static double even(double v) { double f = floor(v), r = v - f; if (r < 0.5) return f; if (r > 0.5) return f + 1; return fmod(f, 2) == 0 ? f : f + 1; }
static double sat(double v, double lo, double hi) { if (v > hi) return hi; if (v < lo) return lo; return even(v); }
static double elem(const void* p, int dt, size_t i) {
  switch (dt) { case 1: return ((const unsigned char*)p)[i]; case -1: return ((const signed char*)p)[i]; case 2: return ((const short*)p)[i]; case 3: return ((const int*)p)[i]; case 4: return ((const float*)p)[i]; case 12: return ((const unsigned short*)p)[i]; default: return ((const unsigned*)p)[i]; }
}
struct Conv { const char* name; hyper_mat (*f)(hyper_mat); int from, to; };
extern "C" hyper_mat hyper_mat_float2uint(hyper_mat) __attribute__((weak));
static const Conv CONVS[] = {{"uchar to short", hyper_mat_uchar2short, 1, 2}, {"uchar to int", hyper_mat_uchar2int, 1, 3}, {"uchar to float", hyper_mat_uchar2float, 1, 4}, {"uchar to ushort", hyper_mat_uchar2ushort, 1, 12},
  {"ushort to float", hyper_mat_ushort2float, 12, 4}, {"float to char", hyper_mat_float2char, 4, -1}, {"float to short", hyper_mat_float2short, 4, 2}, {"float to ushort", hyper_mat_float2ushort, 4, 12},
  {"float to uchar", hyper_mat_float2uchar, 4, 1}, {"float to int", hyper_mat_float2int, 4, 3}, {"float to uint", NULL, 4, 13}};
static void floats(float* p, size_t n) { int mode = (int)range(0, 9); Bulk b = bulk(); if (n <= 12) for (size_t i = 0; i < n; i++) { Bulk q = bulk(); p[i] = gen_float(q, mode); } else for (size_t i = 0; i < n; i++) p[i] = gen_float(b, mode); if (chance(1, 40)) for (size_t i = 1; i < n; i++) p[i] = p[0]; }
static double expect(double v, int to) {
  switch (to) { case -1: return sat(v, -128, 127); case 1: return sat(v, 0, 255); case 2: return sat(v, -32768, 32767); case 12: return sat(v, 0, 65535); case 3: return sat(v, -2147483648.0, 2147483647.0); case 13: return sat(v, 0, 4294967295.0); default: return v; }
}
static void cube() {
  int n = (int)(sizeof CONVS / sizeof *CONVS); Conv c = CONVS[draw(n)];
  if (!c.f) c.f = hyper_mat_float2uint ? hyper_mat_float2uint : NULL;
  if (!c.f) discard();
  g_giant = 12; Dims d = gen_dims(chance(1, 25) ? 100000 : 3000, 1500); int il = gen_il();
  hyper_mat m = gen_cube(d, c.from, il); size_t N = (size_t)d.s * d.l * d.b;
  if (c.from == 4) floats((float*)m->data, N);
  Bytes src = snapshot(m); std::vector<float> w = waves(m);
  describe("%s, %dx%dx%d %s", c.name, d.s, d.l, d.b, ILS[il]);
  hyper_mat r = c.f(m);
  REQUIRE(unchanged(src, m) && same_waves(w, m), "%s changed its input", c.name); check_shape(m, d, c.from, il, "input");
  check_shape(r, d, c.to == -1 ? 1 : c.to, il, c.name);
  REQUIRE(same_waves(w, r), "%s: wavelengths differ", c.name);
  bool clip = false;
  for (size_t i = 0; i < N; i++) { double v = elem(src.data(), c.from, i), e = expect(v, c.to), g = elem(r->data, c.to, i); clip |= e != v; REQUIRE(e == g, "%s: element %zu: %.9g became %.9g instead of %.9g", c.name, i, v, g, e); }
  label(c.name); nontrivial(N > 1 && (c.from != 4 || clip));
  delete_hyper_mat(m); delete_hyper_mat(r);
}
static void image() {
  Dims2 d = gen_dims2(3000, 1000); int ch = (int)range(1, 4); simple_mat m = create_simple_mat(d.r, d.c, 4, ch); floats(F32(m), mat_elems(m)); Bytes src = snapshot(m);
  describe("image %dx%dx%d to uchar", d.r, d.c, ch);
  simple_mat r = simple_mat_float2uchar(m);
  REQUIRE(unchanged(src, m), "conversion changed its input"); REQUIRE(r && r->rows == d.r && r->cols == d.c && r->channels == ch && r->data_type == 1, "converted image has another size or type");
  for (size_t i = 0; i < mat_elems(m); i++) { double e = expect(F32(m)[i], 1); REQUIRE(U8(r)[i] == e, "image to uchar: pixel %zu: %.9g became %d instead of %g", i, F32(m)[i], U8(r)[i], e); }
  label("image to uchar"); nontrivial(d.r * d.c > 1);
  delete_simple_mat(m); delete_simple_mat(r);
}
static void body() { g_huge = 600; g_giant = 0; if (chance(1, 6)) image(); else cube(); }
namespace pbt { Property property_under_test = {"C08",
  "one of 11 conversions of cubes (every layout) or the image conversion on drawn elements: ties, limits of every type and their neighbours, large and tiny values, infinities, random float bits; the oracle rounds to the nearest, ties to even, and saturates; non-trivial: more than one element and, from float, a value that is changed",
  240000, 1440000, 100, body, {"no NaN elements"}}; }
