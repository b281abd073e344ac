// C18: colour conversions
#include "hcv.h"
static void body() {
  Dims2 d = gen_dims2(chance(1, 20) ? 60000 : 2000, 1500); size_t n = (size_t)d.r * d.c; int which = (int)draw(6); bool rgb = which < 4;
  simple_mat m = new_u8(d.r, d.c, rgb ? 3 : 1); if (which == 4) for (size_t i = 0; i < n; i++) U8(m)[i] &= 1;
  if (which < 3 && chance(1, 4)) { for (size_t i = 0; i < n; i++) U8(m)[3 * i + 1] = U8(m)[3 * i + 2] = U8(m)[3 * i]; label("gray stored as colour"); }
  int method = which; if (which == 0 && chance(1, 4)) { do method = chance(1, 2) ? (int)range(-3, 9) : (int)range(-100000, 100000); while (method == 1 || method == 2); label("another method number: average"); }
  Bytes src = snapshot(m); static const char* const N[] = {"average gray", "maximum gray", "weighted gray", "BGR to RGB", "binary to RGB", "gray to RGB"};
  describe("%s of %dx%d: %s", N[which], d.r, d.c, dump(src.data(), src.size()).c_str());
  simple_mat o = NULL; int oc = which < 3 ? 1 : 3;
  switch (which) { case 0: case 1: case 2: o = sm_rgb2gray(m, method); break; case 3: o = dirty(d.r, d.c, 1, 3); sm_bgr2rgb(m, o); break; case 4: o = sm_binary2rgb(m); break; default: o = sm_gray2rgb(m); }
  REQUIRE(unchanged(src, m), "%s changed its input", N[which]);
  REQUIRE(o && o->rows == d.r && o->cols == d.c && o->channels == oc && o->data_type == 1, "%s: wrong size or type", N[which]);
  for (size_t i = 0; i < n; i++) {
    const unsigned char* p = &src[i * (rgb ? 3 : 1)]; int g = U8(o)[i * oc], w = rgb ? 299 * p[0] + 587 * p[1] + 114 * p[2] : 0;
    switch (which) {
      case 0: REQUIRE(g == (2 * (p[0] + p[1] + p[2]) + 3) / 6, "average of %d,%d,%d is %d", p[0], p[1], p[2], g); break;
      case 1: REQUIRE(g == std::max(p[0], std::max(p[1], p[2])), "maximum of %d,%d,%d is %d", p[0], p[1], p[2], g); break;
      case 2: REQUIRE(g == w / 1000 || (w % 1000 == 0 && g == w / 1000 - 1), "weighted gray of %d,%d,%d is %d instead of %d", p[0], p[1], p[2], g, w / 1000); break;
      case 3: for (int k = 0; k < 3; k++) REQUIRE(U8(o)[i * 3 + k] == p[2 - k], "pixel %zu: channel %d is %d after swapping %d,%d,%d", i, k, U8(o)[i * 3 + k], p[0], p[1], p[2]); break;
      default: for (int k = 0; k < 3; k++) REQUIRE(U8(o)[i * 3 + k] == (which == 4 ? p[0] * 255 : p[0]), "%s: pixel %zu, %d, channel %d is %d", N[which], i, p[0], k, U8(o)[i * 3 + k]);
    }
  }
  if (which == 5 || which == 3) {   // and back
    if (which == 5) for (int k = 0; k < 2; k++) { simple_mat b = sm_rgb2gray(o, k); REQUIRE(unchanged(src, b), "gray to colour and back with method %d differs", k); delete_simple_mat(b); }
    else { simple_mat b = dirty(d.r, d.c, 1, 3); sm_bgr2rgb(o, b); REQUIRE(unchanged(src, b), "swapping twice differs"); delete_simple_mat(b); }
  }
  delete_simple_mat(m); delete_simple_mat(o); label(N[which]); nontrivial(n > 1);
}
namespace pbt { Property property_under_test = {"C18",
  "images of drawn size and pixels under six colour conversions against the definition of each pixel; gray to colour and channel swaps are also taken back; non-trivial: more than one pixel",
  480000, 2880000, 200, body, {"8-bit images; weights 0.299, 0.587, 0.114 in channel order, rounded down"}}; }
