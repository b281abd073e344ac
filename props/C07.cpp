// C07: BMP files
#include "hcv.h"
static void put16(Bytes& b, size_t p, unsigned v) { b[p] = (unsigned char)v; b[p + 1] = (unsigned char)(v >> 8); }
static void put32(Bytes& b, size_t p, unsigned v) { put16(b, p, v & 0xffff); put16(b, p + 2, v >> 16); }
static unsigned get16(const Bytes& b, size_t p) { return b[p] | b[p + 1] << 8; }
static unsigned get32(const Bytes& b, size_t p) { return get16(b, p) | get16(b, p + 2) << 16; }

static void write_and_read() {
  Dims2 d = gen_dims2(chance(1, 20) ? 60000 : 3000, 1500); int ch = chance(1, 2) ? 3 : 1;
  simple_mat m = new_u8(d.r, d.c, ch); Bytes src = snapshot(m);
  describe("write %dx%d with %d channels", d.r, d.c, ch);
  std::string path = any_path("o.bmp"); const char* bmp = path.c_str();
  if (chance(1, 4)) { Bytes old((size_t)range(0, 90000), 0x77); write_file(bmp, old.data(), old.size()); }
  smwrite_bmp(bmp, m);
  REQUIRE(m->rows == d.r && m->cols == d.c && m->channels == ch && unchanged(src, m), "writing changed the image");
  auto px = [&](int i, int j, int k) { return ch == 3 ? src[((size_t)i * d.c + j) * 3 + k] : src[(size_t)i * d.c + j]; };
  Bytes f = read_file(bmp);
  REQUIRE(f.size() >= 54 && f[0] == 'B' && f[1] == 'M', "no BMP magic");
  size_t row = ((size_t)d.c * 3 + 3) / 4 * 4, o = get32(f, 10);
  REQUIRE(get32(f, 2) == f.size(), "the file size field says %u for %zu bytes", get32(f, 2), f.size());
  REQUIRE(get32(f, 14) >= 40 && get16(f, 26) == 1 && get16(f, 28) == 24 && get32(f, 30) == 0, "info header is wrong");
  REQUIRE((int)get32(f, 18) == d.c && (int)get32(f, 22) == d.r, "header says %dx%d", (int)get32(f, 18), (int)get32(f, 22));
  REQUIRE(get32(f, 6) == 0, "reserved fields are not zero"); REQUIRE(14 + get32(f, 14) + 4ull * get32(f, 46) <= o, "pixels at %u, but %u byte header and %u colours come first", o, get32(f, 14), get32(f, 46));
  REQUIRE(get32(f, 34) == 0 || get32(f, 34) == row * d.r, "the image size field says %u for %zu bytes", get32(f, 34), row * d.r);
  REQUIRE(o + row * d.r == f.size(), "file of %zu bytes, pixels of %zu bytes at %zu", f.size(), row * d.r, o);
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) for (int k = 0; k < 3; k++)
    REQUIRE(f[o + (d.r - 1 - i) * row + j * 3 + (2 - k)] == px(i, j, k), "file: pixel (%d,%d) channel %d of a %dx%d image is %d, not %d", i, j, k, d.r, d.c, f[o + (d.r - 1 - i) * row + j * 3 + (2 - k)], px(i, j, k));
  simple_mat r = smread_bmp(bmp);
  REQUIRE(r && r->rows == d.r && r->cols == d.c && r->channels == 3 && r->data_type == 1, "the written image comes back with another size");
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) for (int k = 0; k < 3; k++)
    REQUIRE(U8(r)[((size_t)i * d.c + j) * 3 + k] == px(i, j, k), "round trip: pixel (%d,%d) channel %d of a %dx%d image with %d channels", i, j, k, d.r, d.c, ch);
  delete_simple_mat(m); delete_simple_mat(r); unlink(bmp);
  label(ch == 3 ? "written in colour" : "written from gray"); label_if(d.c % 4, "rows are padded"); label_if(d.r % 2, "odd height");
  nontrivial(d.r > 1 && d.c > 1);
}
static Bytes bitmap(const Dims2& d, unsigned o, unsigned hs) {
  size_t row = ((size_t)d.c * 3 + 3) / 4 * 4;
  Bytes f(o + row * d.r); fill_bytes(f.data(), f.size());
  f[0] = 'B'; f[1] = 'M'; put32(f, 2, (unsigned)f.size()); put32(f, 6, 0); put32(f, 10, o); put32(f, 14, hs);
  put32(f, 18, d.c); put32(f, 22, d.r); put16(f, 26, 1); put16(f, 28, 24); put32(f, 30, 0); put32(f, 46, 0); put32(f, 50, 0);
  return f;
}
static void foreign() {   // bitmaps other programs write
  Dims2 d = gen_dims2(2500, 900); unsigned hs = (unsigned)pick({40, 108, 124}), o = 14 + hs + (chance(1, 2) ? (unsigned)range(0, 90) : 0);
  Bytes f = bitmap(d, o, hs); size_t row = ((size_t)d.c * 3 + 3) / 4 * 4;
  if (o >= 14 + hs + 8 && chance(1, 2)) { put32(f, 46, (unsigned)draw((o - 14 - hs) / 4 + 1)); label("a palette before the pixels"); } if (chance(1, 3)) put32(f, 6, (unsigned)draw(1u << 31)); if (chance(1, 2)) put32(f, 34, 0);
  size_t extra = chance(1, 3) ? range(1, 20) : 0; f.insert(f.end(), extra, 9);
  write_file("f.bmp", f.data(), f.size());
  describe("read %dx%d, info header of %u bytes, pixels at %u, %zu bytes after them", d.r, d.c, hs, o, extra);
  simple_mat r = smread_bmp("f.bmp");
  REQUIRE(r && r->rows == d.r && r->cols == d.c && r->channels == 3 && r->data_type == 1, "bitmap read with another size");
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) for (int k = 0; k < 3; k++)
    REQUIRE(U8(r)[((size_t)i * d.c + j) * 3 + k] == f[o + (d.r - 1 - i) * row + j * 3 + 2 - k], "read: pixel (%d,%d) channel %d of a %dx%d bitmap (pixels at %u)", i, j, k, d.r, d.c, o);
  delete_simple_mat(r); unlink("f.bmp");
  label("bitmap of another program"); label_if(o > 54, "pixels do not follow a 40 byte header");
  nontrivial(d.r > 1 && d.c > 1);
}
static void broken() {
  Dims2 d = gen_dims2(600, 200); Bytes f = bitmap(d, 54, 40); const char* what;
  switch (draw(6)) {
    case 0: what = "cut off"; f.resize((size_t)range(0, (int64_t)f.size() - 1)); break;
    case 1: what = "bits per pixel"; put16(f, 28, pick({0, 1, 4, 8, 16, 32, 48, 255})); break;
    case 2: what = "width"; put32(f, 18, (unsigned)(chance(1, 2) ? -(int)range(0, 70000) : (int)pick({d.c * 100 + 100, 1 << 28, 0x2aaaaaab, 0x2aaaaaaa, 0x7fffffff, 0x55555556}))); break;
    case 3: what = "height"; put32(f, 22, (unsigned)(chance(1, 2) ? -(int)range(0, 70000) : (int)pick({d.r + 1, 1 << 28, 1 << 30, 0x7fffffff}))); break;
    case 4: what = "pixel offset"; put32(f, 10, (unsigned)pick({55u, 1000000u, 0x7fffffffu, 0xffffffffu})); break;
    default: what = "magic"; f[draw(2)] = (unsigned char)range('a', 'z'); break;
  }
  write_file("b.bmp", f.data(), f.size());
  describe("bitmap %dx%d with a bad %s, %zu bytes", d.r, d.c, what, f.size());
  must_reject(what, [&] { smread_bmp("b.bmp"); });
  unlink("b.bmp"); label("broken bitmap"); nontrivial();
}
static void body() { switch (weighted({5, 3, 2})) { case 0: write_and_read(); break; case 1: foreign(); break; default: broken(); } }
namespace pbt { Property property_under_test = {"C07",
  "gray and colour images of drawn size and pixels written, the file decoded by an independent parser and read back; bitmaps of other programs (longer headers, gaps before and bytes after the pixels) read; bitmaps with one field or the length broken must be rejected; non-trivial: more than one row and column, or broken",
  160000, 960000, 100, body, {"images of one or three channels"}}; }
