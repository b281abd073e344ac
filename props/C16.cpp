// C16: morphology
#include "hcv.h"
typedef std::vector<int> Img;
struct El { int w, h; std::vector<unsigned char> s; };
static Img step(const Img& a, const Dims2& d, const El& e, bool dilate) {
  Img o(a);
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
    if (!(i - e.h / 2 >= 0 && i + e.h / 2 < d.r && j - e.w / 2 >= 0 && j + e.w / 2 < d.c)) continue;
    bool all = true, any = false;
    for (int m = 0; m < e.h; m++) for (int n = 0; n < e.w; n++) if (e.s[m * e.w + n] == 1) { bool set = a[(i - e.h / 2 + m) * d.c + j - e.w / 2 + n] != 0; all &= set; any |= set; }
    int& v = o[i * d.c + j];
    if (dilate) { if (v == 0 && any) v = 1; } else if (v != 0 && !all) v = 0;
  }
  return o;
}
static void body() {
  Dims2 d = gen_dims2(chance(1, 20) ? 5000 : 700, 300); simple_mat m = create_simple_mat(d.r, d.c, 1, 1), o = dirty(d.r, d.c, 1, 1);
  int mode = weighted({4, 3, 2}); Bulk b = bulk(); int den = (int)range(2, 12); bool inv = chance(1, 2);
  if (d.r * d.c <= 64 && mode == 0) for (int i = 0; i < d.r * d.c; i++) U8(m)[i] = (unsigned char)draw(2);
  else for (int i = 0; i < d.r * d.c; i++) { bool z = b.below(den) == 0; U8(m)[i] = (z != inv) ? (mode == 1 ? 255 : mode == 2 ? (unsigned char)(1 + b.below(255)) : 1) : 0; }
  El e; bool big = chance(1, 60); e.w = (int)range(1, std::min(d.c, big ? 300 : chance(1, 5) ? 9 : 3)); e.h = (int)range(1, std::min(d.r, big ? 3000 / e.w : chance(1, 5) ? 9 : 3)); e.s.assign(e.w * e.h, 1);
  bool holes = chance(1, 2); if (holes) for (auto& x : e.s) x = (unsigned char)!chance(1, 3);
  S_2D s = holes || chance(1, 3) ? create_2D_struct_with_data(e.w, e.h, e.s.data()) : create_2D_struct(e.w, e.h);
  REQUIRE(s && s->width == e.w && s->height == e.h && memcmp(s->data, e.s.data(), e.s.size()) == 0, "structuring element differs from what was asked");
  Bytes src = snapshot(m); Img a(src.begin(), src.end()), ref(a); int op = (int)draw(4), it = op < 2 ? 1 : chance(1, 6) ? (int)range(4, 9) : (int)range(1, 3);
  static const char* const N[] = {"erosion", "dilation", "opening", "closing"};
  describe("%s (%d) of %dx%d with a %dx%d element%s: %s", N[op], it, d.r, d.c, e.h, e.w, holes ? " with holes" : "", dump(src.data(), src.size()).c_str());
  switch (op) {
    case 0: hypercv_corrosion(m, o, s); ref = step(ref, d, e, false); break;
    case 1: hypercv_expend(m, o, s); ref = step(ref, d, e, true); break;
    case 2: hypercv_open(m, o, s, it); for (int t = 0; t < it; t++) ref = step(step(ref, d, e, false), d, e, true); break;
    default: hypercv_close(m, o, s, it); for (int t = 0; t < it; t++) ref = step(step(ref, d, e, true), d, e, false);
  }
  REQUIRE(unchanged(src, m), "the source changed"); REQUIRE(memcmp(s->data, e.s.data(), e.s.size()) == 0, "the structuring element changed");
  for (int i = 0; i < d.r * d.c; i++) REQUIRE(U8(o)[i] == ref[i], "%s (%d) with a %dx%d element: pixel (%d,%d) of %dx%d is %d instead of %d", N[op], it, e.h, e.w, i / d.c, i % d.c, d.r, d.c, U8(o)[i], ref[i]);
  delete_simple_mat(m); delete_simple_mat(o); delete_S_2D(s);
  label(N[op]); label_if(it > 1, "repeated"); label_if(e.w != e.h, "element not square"); label_if(holes, "element with holes"); label_if(e.w * e.h > 255, "element of more than 255 cells"); nontrivial(ref != a);
}
namespace pbt { Property property_under_test = {"C16",
  "images of drawn size with sparse, dense or noisy foreground of value 1, 255 or any; elements up to 9x9 (one in 60 up to 3000 cells) with or without holes; erosion, dilation, opening and closing up to three times against a direct model; non-trivial: the operation changes the image",
  240000, 1440000, 100, body, {"8-bit images of one channel at least as large as the element"}}; }
