// C13: borders
#include "hcv.h"
static void body() {
  if (chance(1, 3)) {
    int len = dim(chance(1, 4) ? 3000 : 40), bt = gen_border(); int64_t far = chance(1, 4) ? 40ll * len + 200 : 3ll * len + 3; int p = (int)range(-far, far);
    describe("index %d of %d, border %d", p, len, bt);
    int g = hypercv_border_Interpolate(p, len, bt), e = border_ref(p, len, bt);
    REQUIRE(g == e, "index %d of a row of %d, border %d: %d instead of %d", p, len, bt, g, e);
    label("index"); label_if(p < -len || p >= 2 * len, "further away than one length"); nontrivial(p < 0 || p >= len); return;
  }
  Dims2 d = gen_dims2(chance(1, 20) ? 9000 : 700, 300); int ch = (int)range(1, 4), bt = (int)range(0, 4), v = (int)draw(256), b[4];
  for (int& x : b) x = chance(1, 4) ? 0 : (int)range(0, chance(1, 8) ? (chance(1, 20) ? 400 : 40) : 7);
  simple_mat m = new_u8(d.r, d.c, ch); Bytes src = snapshot(m);
  describe("border %d,%d,%d,%d (top bottom left right) around %dx%dx%d, type %d value %d", b[0], b[1], b[2], b[3], d.r, d.c, ch, bt, v);
  simple_mat r = hypercv_copy_make_border(m, b[0], b[1], b[2], b[3], bt, (unsigned char)v);
  REQUIRE(unchanged(src, m), "adding a border changed the image");
  int R = d.r + b[0] + b[1], C = d.c + b[2] + b[3];
  REQUIRE(r && r != m && r->data != m->data && r->rows == R && r->cols == C && r->channels == ch && r->data_type == 1, "image with border has the wrong size");
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int k = 0; k < ch; k++) {
    int si = i - b[0], sj = j - b[2]; bool in = si >= 0 && si < d.r && sj >= 0 && sj < d.c;
    int e = bt == 0 && !in ? v : src[((size_t)border_ref(si, d.r, bt) * d.c + border_ref(sj, d.c, bt)) * ch + k];
    int g = U8(r)[((size_t)i * C + j) * ch + k];
    REQUIRE(g == e, "border type %d: pixel (%d,%d) channel %d is %d instead of %d", bt, i, j, k, g, e);
  }
  delete_simple_mat(m); delete_simple_mat(r);
  label(bt == 0 ? "constant border" : "mirrored, wrapped or repeated border"); label_if(b[0] >= d.r || b[1] >= d.r || b[2] >= d.c || b[3] >= d.c, "border larger than the image"); nontrivial(b[0] + b[1] + b[2] + b[3] > 0);
}
namespace pbt { Property property_under_test = {"C13",
  "border indices near and many lengths away from rows of drawn length, and images of 1..4 channels extended by drawn margins with five border types, against the periodic definition of each type; non-trivial: an index outside the row, a margin",
  600000, 3600000, 200, body, {"8-bit images"}}; }
