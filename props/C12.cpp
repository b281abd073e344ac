// C12: median, mean and integral
#include "hcv.h"
// a window of more than 65535 pixels: one case takes seconds
static void vast_mean() {
  int size = (int)range(256, 262), w = size + (int)range(0, 4), hgt = size + (int)range(0, 4), h = size / 2; simple_mat m = new_u8(hgt, w, 1), o = dirty(hgt, w, 1, 1); Bytes src = snapshot(m);
  describe("mean of %dx%d, size %d", hgt, w, size); hypercv_meanblur(m, o, size); REQUIRE(unchanged(src, m), "the source changed");
  std::vector<long> in((size_t)(hgt + 1) * (w + 1), 0); for (int i = 0; i < hgt; i++) for (int j = 0; j < w; j++) in[(size_t)(i + 1) * (w + 1) + j + 1] = src[(size_t)i * w + j] + in[(size_t)i * (w + 1) + j + 1] + in[(size_t)(i + 1) * (w + 1) + j] - in[(size_t)i * (w + 1) + j];
  for (int i = 0; i < hgt; i++) for (int j = 0; j < w; j++) {
    int y0 = std::max(0, i - h), y1 = std::min(hgt, i - h + size), x0 = std::max(0, j - h), x1 = std::min(w, j - h + size); auto at = [&](int y, int x) { return in[(size_t)y * (w + 1) + x]; };
    long e = (at(y1, x1) - at(y0, x1) - at(y1, x0) + at(y0, x0)) / ((long)(y1 - y0) * (x1 - x0)); REQUIRE(U8(o)[(size_t)i * w + j] == e, "mean of size %d at (%d,%d) of %dx%d is %d instead of %ld", size, i, j, hgt, w, U8(o)[(size_t)i * w + j], e);
  }
  delete_simple_mat(m); delete_simple_mat(o); label("mean over more than 65535 pixels"); nontrivial(true);
}
static void body() {
  if (draw(50000) == 49999) return vast_mean();
  int which = (int)draw(3); bool big = chance(1, 6); int size = which == 0 ? 2 * (int)range(0, big ? 6 : 2) + 1 : (int)range(1, big ? 14 : 5); bool wide = which < 2 && chance(1, 60); if (wide) size = which == 0 ? 2 * (int)range(7, 24) + 1 : (int)range(15, 70); bool vast = which == 1 && chance(1, 300); if (vast) size = (int)range(71, 300);
  Dims2 d = gen_dims2(which == 2 ? (chance(1, 20) ? 70000 : 2500) : 900, which == 2 ? 3000 : 300); if (wide && chance(1, 2)) { d.r = (int)range(size / 2, size + 4); d.c = (int)range(size / 2, size + 4); }
  simple_mat m = new_u8(d.r, d.c, 1); Bytes src = snapshot(m); int h = size / 2; bool inner = false;
  describe("%s of %dx%d, size %d: %s", which == 0 ? "median" : which == 1 ? "mean" : "integral", d.r, d.c, size, dump(src.data(), src.size()).c_str());
  auto S = [&](int i, int j) { return (int)src[(size_t)i * d.c + j]; };
  if (which == 2) {
    simple_mat o = dirty(d.r, d.c, 3, 1); hypercv_integral(m, o); std::vector<long> col(d.c, 0);
    for (int i = 0; i < d.r; i++) { long row = 0; for (int j = 0; j < d.c; j++) { col[j] += S(i, j); row += col[j]; int g = ((int*)o->data)[(size_t)i * d.c + j]; REQUIRE(g == row, "integral at (%d,%d) of %dx%d is %d, the pixels above and left sum to %ld", i, j, d.r, d.c, g, row); } }
    inner = d.r > 1 && d.c > 1; delete_simple_mat(o);
  } else {
    simple_mat o = dirty(d.r, d.c, 1, 1);
    if (which == 0) hypercv_medianblur(m, o, size); else hypercv_meanblur(m, o, size);
    REQUIRE(o->rows == d.r && o->cols == d.c && o->data_type == 1 && o->channels == 1, "output changed its size");
    for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
      int e;
      if (which == 0) {
        if (i - h >= 0 && i + h < d.r && j - h >= 0 && j + h < d.c) { std::vector<int> w; for (int x = -h; x <= h; x++) for (int y = -h; y <= h; y++) w.push_back(S(i + x, j + y)); std::nth_element(w.begin(), w.begin() + w.size() / 2, w.end()); e = w[w.size() / 2]; inner = true; }
        else e = S(i, j);
      } else {
        long s = 0, n = 0; for (int x = -h; x < size - h; x++) for (int y = -h; y < size - h; y++) if (i + x >= 0 && i + x < d.r && j + y >= 0 && j + y < d.c) { s += S(i + x, j + y); n++; }
        e = (int)(s / n); inner |= n == (long)size * size;
      }
      REQUIRE(U8(o)[(size_t)i * d.c + j] == e, "%s of size %d at (%d,%d) of %dx%d is %d instead of %d", which ? "mean" : "median", size, i, j, d.r, d.c, U8(o)[(size_t)i * d.c + j], e);
    }
    delete_simple_mat(o); inner = inner && size > 1;
  }
  REQUIRE(unchanged(src, m), "the source changed"); delete_simple_mat(m);
  label(which == 0 ? "median" : which == 1 ? "mean" : "integral"); label_if(wide, "window of 15 or more"); label_if(which < 2 && (size > d.r || size > d.c), "window larger than the image"); nontrivial(inner);
}
namespace pbt { Property property_under_test = {"C12",
  "gray images of drawn size and pixels under a median of odd size, a mean of any size and the integral image, against the definitions; non-trivial: a window of more than one pixel fits inside the image",
  200000, 1200000, 100, body, {"8-bit images of one channel"}}; }
