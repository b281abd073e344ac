// C29: drawing
#include "hcv.h"
static int coord(int n) { switch (weighted({6, 2, 1})) { case 0: return (int)draw(n); case 1: return (int)range(-12, n + 12); default: return (int)range(-3000, 3000); } }
static void body() {
  Dims2 d = gen_dims2(2000, 300); int r = d.r, c = d.c, ch = chance(1, 2) ? 3 : 1; size_t n = (size_t)r * c * ch;
  simple_mat s = new_u8(r, c, ch), o = dirty(r, c, 1, ch); Bytes b = snapshot(s); bool inplace = chance(1, 6); simple_mat dst = inplace ? s : o;
  RGB_data col; int v[3]; for (int& x : v) x = (int)draw(256); col.r = (unsigned char)v[0]; col.g = (unsigned char)v[1]; col.b = (unsigned char)v[2];
  int size = chance(1, 6) ? (int)range(8, chance(1, 8) ? 300 : 60) : (int)range(0, 7), h = size / 2;
  if (inplace) discard();
  if (chance(1, 2)) {
    int k = (int)range(0, chance(1, 40) ? 200 : 6); std::vector<POINT> p(k + 1); for (auto& q : p) { q.x = coord(c); q.y = coord(r); }
    describe("%d points of size %d on %dx%dx%d, colour %d,%d,%d; first at (%d,%d)", k, size, r, c, ch, v[0], v[1], v[2], (int)p[0].x, (int)p[0].y);
    draw_POINT(s, dst, p.data(), k, col, size); REQUIRE(unchanged(b, s), "drawing points changed the source");
    Bytes w(b); bool in = false; for (int q = 0; q < k; q++) for (int y = (int)p[q].y - h; y <= (int)p[q].y + h; y++) for (int x = (int)p[q].x - h; x <= (int)p[q].x + h; x++) if (y >= 0 && y < r && x >= 0 && x < c) { in = true; if (ch == 1) w[(size_t)y * c + x] = v[0]; else for (int t = 0; t < 3; t++) w[((size_t)y * c + x) * 3 + t] = v[2 - t]; }
    for (size_t i = 0; i < n; i++) REQUIRE(U8(dst)[i] == w[i], "points: row %zu column %zu channel %zu is %d instead of %d", i / ch / c, i / ch % c, i % ch, U8(dst)[i], w[i]);
    label("points"); nontrivial(in);
  } else {
    POINT a, e; a.x = coord(c); a.y = coord(r); e.x = coord(c); e.y = coord(r); int sp = weighted({5, 1, 1, 1, 1}); if (sp == 1) e.x = a.x; else if (sp == 2) e.y = a.y; else if (sp == 3) e = a; else if (sp == 4) { int t = (int)range(-30, 30); e.x = a.x + t; e.y = a.y + (chance(1, 2) ? t : -t); }
    int x0 = a.x, y0 = a.y, x1 = e.x, y1 = e.y, dx = x1 - x0, dy = y1 - y0, st = std::max(abs(dx), abs(dy));
    describe("line (%d,%d)-(%d,%d) thickness %d on %dx%dx%d, colour %d,%d,%d", x0, y0, x1, y1, size, r, c, ch, v[0], v[1], v[2]);
    draw_line(s, dst, a, e, col, size); REQUIRE(unchanged(b, s), "drawing a line changed the source");
    // must: within the rounding of every step; may: half a pixel of the ideal line
    std::vector<char> must(r * c, 0), may(r * c, 0); bool in = false;
    for (int q = 0; q <= st; q++) {
      double x = st ? x0 + (double)dx * q / st : x0, y = st ? y0 + (double)dy * q / st : y0; int lx = (int)ceil(x - 0.5 - 1e-9), hx = (int)floor(x + 0.5 + 1e-9), ly = (int)ceil(y - 0.5 - 1e-9), hy = (int)floor(y + 0.5 + 1e-9);
      bool tie = lx != hx || ly != hy;
      for (int yy = ly; yy <= hy; yy++) for (int xx = lx; xx <= hx; xx++) for (int t = -h; t <= h; t++) if (yy >= 0 && yy < r && xx + t >= 0 && xx + t < c) { may[yy * c + xx + t] = 1; if (!tie) { must[yy * c + xx + t] = 1; in = true; } }
    }
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
      const unsigned char* g = U8(dst) + ((size_t)i * c + j) * ch; const unsigned char* old = &b[((size_t)i * c + j) * ch]; bool drawn = true, kept = true;
      for (int t = 0; t < ch; t++) { drawn &= g[t] == v[ch == 1 ? 0 : t]; kept &= g[t] == old[t]; }
      if (must[i * c + j]) REQUIRE(drawn, "row %d column %d is on the line and not drawn", i, j); else if (!may[i * c + j]) REQUIRE(kept, "row %d column %d is off the line and changed", i, j); else REQUIRE(drawn || kept, "row %d column %d holds another colour", i, j);
    }
    label("lines"); label_if(abs(dy) > abs(dx), "steep"); label_if(dx == 0 && dy != 0, "vertical"); label_if(x1 < x0 || y1 < y0, "backwards"); nontrivial(in && st > 0);
  }
  delete_simple_mat(s); delete_simple_mat(o);
}
namespace pbt { Property property_under_test = {"C29",
  "points and lines with drawn positions (inside, near and far outside), sizes and colours on gray and three-channel images, compared pixel by pixel with the squares around the points and the rounded steps along the line; non-trivial: something falls inside the image, the line has a length",
  480000, 2880000, 500, body, {"coordinates within 3000 of the image", "a pixel half way between two may go either way", "points store blue, green, red and lines red, green, blue; gray images take the red value", "an even size draws like the next odd one"}}; }
