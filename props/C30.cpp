// C30: unusable arguments are rejected
#include <iostream>
#include <fstream>
#include <sstream>
#include <limits.h>
#include "hcv.h"
#include "cxx_include/hypercv_core.hpp"
typedef simple_mat S; typedef hyper_mat H;
// what must still be as it was after the rejection
static std::vector<std::pair<S, Bytes>> ts; static std::vector<std::pair<H, Bytes>> th;
static S keep(S m) { if (m) { fill_bytes(m->data, mat_elems(m) * esize(m->data_type)); ts.push_back({m, snapshot(m)}); } return m; }
static S mat(int r, int c, int dt = 1, int ch = 1) { return keep(create_simple_mat(r, c, dt, ch)); }
static H cube(const Dims& d, int dt, int il) { H m = gen_cube(d, dt, il); th.push_back({m, snapshot(m)}); return m; }
template <class F> static void rej(const char* what, F f) {
  describe("%s", what); must_reject(what, f);
  for (auto& t : ts) REQUIRE(unchanged(t.second, t.first), "%s was rejected after changing an image", what);
  for (auto& t : th) REQUIRE(unchanged(t.second, t.first), "%s was rejected after changing a cube", what);
}
static int other_type(int dt) { int t; do t = gen_type(); while (t == dt); return t; }
static int other_ch(int ch) { int c; do c = (int)range(1, 4); while (c == ch); return c; }
static int bad_border() { int b; do b = chance(1, 2) ? (int)range(5, 40) : (int)range(-9, 200); while (b >= 0 && b <= 4); return b; }
static int bad_type() { int t; do t = chance(2, 3) ? (int)range(-2, 17) : (int)range(-1000000, 1000000); while ((t >= 1 && t <= 5) || (t >= 12 && t <= 15)); return t; }
static int neg() { return chance(1, 2) ? 0 : -(int)range(1, chance(1, 2) ? 5 : 1000000); }
struct P { int r, c; };
static P other(int r, int c) { P p{r, c}; do { int w = (int)draw(4); if (w == 0) p.r = (int)range(1, 14); else if (w == 1) p.c = (int)range(1, 14); else if (w == 2) { p.r = c; p.c = r; } else { p.r = (int)range(1, 14); p.c = (int)range(1, 14); } } while (p.r == r && p.c == c); return p; }
static Dims other(const Dims& d) { Dims o; do { o = d; int w = (int)draw(5); if (w == 0) o.s = (int)range(1, 9); else if (w == 1) o.l = (int)range(1, 9); else if (w == 2) o.b = (int)range(1, 9); else if (w == 3) std::swap(o.s, o.l); else std::swap(o.l, o.b); } while (o.s == d.s && o.l == d.l && o.b == d.b); return o; }
static int other_il(int a) { int i; do i = gen_il(); while (i == a); return i; }
static Dims small() { return Dims{(int)range(1, 8), (int)range(1, 8), (int)range(1, 6)}; }

static void cubes() {
  Dims d = small(); int dt = gen_type(), il = gen_il();
  switch (draw(13)) {
    case 0: { int w = (int)draw(3), v = neg(); int s = w == 0 ? v : d.s, l = w == 1 ? v : d.l, b = w == 2 ? v : d.b; if (chance(1, 2)) rej("a cube without a positive size", [&] { create_hyper_mat(s, l, b, dt, ILS[il]); }); else rej("a cube from data without a positive size", [&] { create_hyper_mat_with_data(s, l, b, dt, ILS[il], NULL, NULL); }); break; }
    case 1: { int t = bad_type(); if (chance(1, 2)) rej("a cube of an unknown type", [&] { create_hyper_mat(d.s, d.l, d.b, t, ILS[il]); }); else { write_file("f", "abc", 3); rej("reading a cube of an unknown type", [&] { hmread_with_size("f", d.s, d.l, d.b, t, ILS[il]); }); } break; }
    case 2: { int v[3] = {(int)range(1, 70000), (int)range(1, 70000), 0}; double p = (double)v[0] * v[1] * esize(dt); int64_t lo = (int64_t)floor(2147483647.0 / p) + 1; if (lo > INT_MAX) discard(); v[2] = (int)(chance(1, 2) ? lo : range(lo, std::min<int64_t>(lo * 8, INT_MAX))); std::swap(v[0], v[draw(3)]); std::swap(v[2], v[draw(3)]);
      describe("%dx%dx%d type %d", v[0], v[1], v[2], dt); if (chance(1, 2)) rej("a cube beyond the range of int", [&] { create_hyper_mat(v[0], v[1], v[2], dt, ILS[il]); }); else { write_file("f", "abc", 3); rej("reading a cube beyond the range of int", [&] { hmread_with_size("f", v[0], v[1], v[2], dt, ILS[il]); }); } break; }
    case 3: { write_file("f", "abc", 3); int w = (int)draw(3); rej("reading a cube without a path", [&] { if (w == 0) hmread_with_hdr(NULL, "f"); else if (w == 1) hmread_with_hdr("f", NULL); else hmread_with_size(NULL, d.s, d.l, d.b, dt, ILS[il]); }); break; }
    case 4: { write_file("f", "abc", 3); int w = (int)draw(3), v = neg(); rej("reading a cube without a positive size", [&] { hmread_with_size("f", w == 0 ? v : d.s, w == 1 ? v : d.l, w == 2 ? v : d.b, dt, ILS[il]); }); break; }
    case 5: { std::string h = "ENVI\n"; int miss = (int)draw(4); bool drop = chance(1, 2); const char* k[] = {"samples", "lines", "bands", "data type"}; int v[] = {d.s, d.l, d.b, dt}; for (int i = 0; i < 4; i++) { if (i == miss && drop) continue; h += std::string(k[i]) + " = " + std::to_string(i == miss ? (i == 3 ? bad_type() : neg()) : v[i]) + "\n"; } h += std::string("interleave = ") + ILS[il] + "\n"; write_file("f", "abc", 3); write_file("h", h.data(), h.size()); describe("%s %s", drop ? "no" : "bad", k[miss]); rej("reading a cube with an incomplete header", [&] { hmread_with_hdr("f", "h"); }); break; }
    case 6: { H m = cube(d, dt, il); int w = (int)draw(3); rej("saving a cube to an impossible place", [&] { if (w == 0) hmsave(NULL, m); else if (w == 1) hmsave("f", NULL); else hmsave("no/such/dir/f", m); }); break; }
    case 7: { H m = cube(d, dt, il); rej("writing a header to an impossible place", [&] { writehdr("no/such/dir/f", m->samples, m->lines, m->bands, m->data_type, ILS[il], m->wavelength); }); break; }
    case 8: { H m = cube(d, dt, il); if (chance(1, 3)) { bool w = chance(1, 2); rej("copying without a cube", [&] { hyper_mat_copy_to(w ? m : NULL, w ? NULL : m); }); } else { bool ty = chance(1, 3); H o = cube(ty ? d : other(d), ty ? other_type(dt) : dt, gen_il()); rej("copying between different cubes", [&] { hyper_mat_copy_to(m, o); }); } break; }
    case 9: { H m = cube(d, dt, il); if (chance(1, 3)) { bool w = chance(1, 2); rej("copying wavelengths without a cube", [&] { hyper_mat_copy_wavelength(w ? m : NULL, w ? NULL : m); }); } else { Dims e = d; do e.b = (int)range(1, 9); while (e.b == d.b); H o = cube(e, dt, il); rej("copying wavelengths between cubes of other band counts", [&] { hyper_mat_copy_wavelength(m, o); }); } break; }
    case 10: { H m = cube(d, dt, il); H (*f[6])(H) = {bil2bsq, bil2bip, bsq2bil, bsq2bip, bip2bsq, bip2bil}; static const int third[6] = {2, 0, 2, 1, 1, 0}; if (chance(1, 3)) { int w = (int)draw(9); rej("converting nothing", [&] { if (w < 6) f[w](NULL); else if (w == 6) convert2bsq(NULL); else if (w == 7) convert2bil(NULL); else convert2bip(NULL); }); } else { int w = (int)draw(6); H o = cube(d, dt, third[w]); describe("function %d", w); rej("converting a cube of the third layout", [&] { f[w](o); }); } (void)m; break; }
    case 11: { H m = cube(d, dt, il); int lo[3], hi[3], len[3] = {d.l, d.s, d.b}; for (int i = 0; i < 3; i++) { lo[i] = (int)draw(len[i]); hi[i] = (int)range(lo[i] + 1, len[i]); } int w = (int)draw(3); switch (draw(3)) { case 0: hi[w] = len[w] + 1 + (int)draw(chance(1, 2) ? 1 : 50); break; case 1: lo[w] = -1 - (int)draw(chance(1, 2) ? 1 : 50); break; default: lo[w] = hi[w] + (int)draw(chance(1, 2) ? 1 : 4); break; }
      describe("rows %d-%d columns %d-%d bands %d-%d of %dx%dx%d", lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], d.l, d.s, d.b); rej("a sub-cube outside the cube", [&] { hyper_mat_get_range(m, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); }); break; }
    default: { int w = (int)draw(3); H m = cube(d, dt, il); if (w == 0) { Dims e = small(); int dt2 = chance(1, 2) ? other_type(dt) : dt; long n = (long)d.s * d.l * d.b, k = (long)e.s * e.l * e.b; H o = cube(e, dt2, gen_il()); int at = dt2 != dt ? 0 : chance(1, 2) ? -1 - (int)draw(5) : (int)std::max(0l, n - k + 1) + (int)draw(3); rej("splicing a part that does not fit", [&] { hyper_mat_splicing(m, o, at); }); }
      else if (w == 1) { int rr = (int)range(1, 20), cc = (int)range(1, 20); if (rr * cc == d.s * d.l * d.b) rr++; rej("reshaping to another number of elements", [&] { reshape_hypermat_2_simplemat(m, rr, cc); }); }
      else { bool l = chance(1, 2); H o; if (il != 0) { o = cube(Dims{d.l, d.s, d.b}, dt, 0); } else { o = cube(l || d.s == d.l ? other(Dims{d.l, d.s, d.b}) : d, dt, 0); } rej("transposing between cubes that do not match", [&] { hyper_mat_transport(o, m); }); } }
  }
}
static void bands() {
  Dims d = small(); int dt = gen_type(), il = gen_il();
  switch (draw(9)) {
    case 0: { bool lay = chance(1, 2); H m = cube(d, dt, lay ? 1 + (int)draw(2) : 0); S o = mat(d.l, d.s, dt); int b = lay ? (int)range(1, d.b) : chance(1, 2) ? d.b + 1 + (int)draw(3) : -(int)draw(3); rej("taking a band that is not there", [&] { hyper_mat_2_simple_mat(m, o, b); }); break; }
    case 1: { int w = (int)draw(4); H m = cube(d, dt, w == 0 ? 1 + (int)draw(2) : 0); P p = w == 1 ? other(d.l, d.s) : P{d.l, d.s}; S o = mat(p.r, p.c, w == 2 ? other_type(dt) : dt); int b = w == 3 ? (chance(1, 2) ? d.b + 1 + (int)draw(3) : -(int)draw(3)) : (int)range(1, d.b); describe("violation %d", w); rej("putting a band that does not fit", [&] { simple_mat_2_hyper_mat(m, o, b); }); break; }
    case 2: { float sp[8] = {1, 2, 3, 4, 5, 6, 7, 8}; int w = (int)draw(3); H m = cube(d, 4, w == 0 ? (int)draw(2) : 2); rej("matching spectra without a pixel-interleaved cube and a spectrum", [&] { spectrum_SAM_match(w == 1 ? NULL : m, w == 2 ? NULL : sp, 0.5f); }); break; }
    case 3: { float sp[4] = {1, 2, 3, 4}; bool w = chance(1, 2); rej("the angle without a spectrum", [&] { spectral_angle_mapper(w ? sp : NULL, w ? NULL : sp, 4); }); break; }
    case 4: rej("reading spectra from a file that is not there", [&] { read_spectrum_file("no-such-file", 4); }); break;
    case 5: { int w = (int)draw(4); H m = cube(d, 4, w == 0 ? (int)draw(2) : 2); P p = w == 1 ? other(d.l, d.s) : P{d.l, d.s}; S o = mat(p.r, p.c, w == 2 ? other_type(4) : 4); describe("violation %d", w); rej("averaging bands into something that does not match", [&] { hyper_mat_mean(w == 3 ? NULL : m, o); }); break; }
    case 6: { H (*f[])(H) = {hyper_mat_uchar2short, hyper_mat_uchar2int, hyper_mat_uchar2float, hyper_mat_uchar2ushort, hyper_mat_float2char, hyper_mat_float2int, hyper_mat_float2short, hyper_mat_float2ushort, hyper_mat_ushort2float, hyper_mat_float2uchar}; static const int from[] = {1, 1, 1, 1, 4, 4, 4, 4, 12, 4}; int w = (int)draw(10); H m = cube(d, other_type(from[w]), il); describe("conversion %d of type %d", w, m->data_type); rej("converting the type of a cube of another type", [&] { f[w](m); }); break; }
    case 7: { float sp[8] = {1, 2, 3, 4, 5, 6, 7, 8}; H m = cube(d, other_type(4), il), o = cube(d, 4, 2); bool w = chance(1, 2); describe("type %d", m->data_type); if (w) rej("a detector on a cube that is not float", [&] { hyper_mat_cem(m, sp); }); else rej("components of a cube that is not float", [&] { hyper_mat_pca(m, o, 5); }); break; }
    default: { int w = (int)draw(3); H m = cube(d, 4, w == 0 ? 1 + (int)draw(2) : 0), o = cube(w == 1 ? other(d) : d, w == 2 ? other_type(1) : 1, 0); describe("violation %d", w); rej("stretching into a cube that does not match", [&] { hyper_mat_linear_tension(m, o); }); break; }
  }
}
static void images() {
  Dims2 d = gen_dims2(60, 9); int dt = gen_type(), ch = (int)range(1, 4);
  switch (draw(11)) {
    case 0: { bool w = chance(1, 2); int v = neg(); write_file("f", "abc", 3); bool rd = chance(1, 2); int r = w ? v : d.r, c = w ? d.c : v; if (rd) rej("reading an image without a positive size", [&] { smread("f", r, c, dt, ch); }); else rej("an image without a positive size", [&] { create_simple_mat(r, c, dt, ch); }); break; }
    case 1: { bool rd = chance(1, 2), ty = chance(1, 2); int t = ty ? bad_type() : dt, c = ty ? ch : neg(); write_file("f", "abc", 3); describe("type %d channels %d", t, c); if (rd) rej("reading an image of an unknown type or without channels", [&] { smread("f", d.r, d.c, t, c); }); else rej("an image of an unknown type or without channels", [&] { create_simple_mat(d.r, d.c, t, c); }); break; }
    case 2: { int r = (int)range(1, 100000), e = esize(dt) * ch; int64_t lo = (int64_t)floor(2147483647.0 / ((double)r * e)) + 1; if (lo > INT_MAX) discard(); int c = (int)(chance(1, 2) ? lo : range(lo, std::min<int64_t>(lo * 8, INT_MAX))); if (chance(1, 2)) std::swap(r, c); write_file("f", "abc", 3); bool rd = chance(1, 2); describe("%dx%d, %d channels, type %d", r, c, ch, dt); if (rd) rej("reading an image beyond the range of int", [&] { smread("f", r, c, dt, ch); }); else rej("an image beyond the range of int", [&] { create_simple_mat(r, c, dt, ch); }); break; }
    case 3: { int w = (int)draw(4); rej("reading an image that is not there", [&] { if (w == 0) smread(NULL, d.r, d.c, dt, ch); else if (w == 1) smread("no-such-file", d.r, d.c, dt, ch); else if (w == 2) smread_bmp(NULL); else smread_bmp("no-such-file.bmp"); }); break; }
    case 4: { int w = (int)draw(4); S m = mat(d.r, d.c, w == 2 ? other_type(1) : 1, chance(1, 2) ? 1 : 3); rej("writing a bitmap that cannot be written", [&] { if (w == 0) smwrite_bmp(NULL, m); else if (w == 1) smwrite_bmp("f.bmp", NULL); else smwrite_bmp(w == 3 ? "no/such/dir/f.bmp" : "f.bmp", m); }); break; }
    case 5: { int w = (int)draw(4); S m = mat(d.r, d.c, pick({1, 2, 3, 4, 12}), (int)range(2, 4)); rej("mean or variance of no image or of several channels", [&] { if (w == 0) simple_mat_mean(NULL); else if (w == 1) simple_mat_variance(NULL); else if (w == 2) simple_mat_mean(m); else simple_mat_variance(m); }); break; }
    case 6: { int h[256]; int w = (int)draw(7); S m = mat(d.r, d.c, other_type(1), 1), g = mat(d.r, d.c); describe("violation %d", w); rej("statistics of no image or of another type", [&] { if (w == 0) simple_mat_grayscale_statistics(NULL, h); else if (w == 1) simple_mat_grayscale_statistics(m, h); else if (w == 2) simple_mat_grayscale_statistics(g, NULL); else if (w == 3) simple_mat_contrast_ratio(NULL); else if (w == 4) simple_mat_contrast_ratio(m); else if (w == 5) simple_mat_entropy(NULL); else simple_mat_entropy(m); }); break; }
    case 7: { bool w = chance(1, 2); int v = neg(), k = (int)range(1, 5); unsigned char q[32] = {1}; if (chance(1, 2)) rej("a structuring element without a size", [&] { create_2D_struct(w ? v : k, w ? k : v); }); else rej("a structuring element without a size, from data", [&] { create_2D_struct_with_data(w ? v : k, w ? k : v, q); }); break; }
    case 8: { S m = mat(d.r, d.c, dt); bool ty = chance(1, 2); P p = ty ? P{d.c, d.r} : other(d.c, d.r); S o = mat(p.r, p.c, ty ? other_type(dt) : dt); rej("transposing into an image that does not match", [&] { simple_mat_transport(o, m); }); break; }
    case 9: { bool fl = chance(1, 2); int t = fl ? 4 : 1, w = (int)draw(4); S a = mat(d.r, d.c, t, ch), b = mat(d.r, d.c, t, w == 3 ? other_ch(ch) : ch), o = mat(d.r, d.c, t, ch); describe("violation %d", w); rej("adding images that do not match", [&] { (fl ? simple_mat_addition_float : simple_mat_addition_uchar)(w == 0 ? NULL : a, w == 1 ? NULL : b, w == 2 ? NULL : o); }); break; }
    default: { int w = (int)draw(3); P p = w == 0 ? other(d.r, d.c) : P{d.r, d.c}; S a = mat(d.r, d.c, w == 1 ? other_type(4) : 4), o = mat(p.r, p.c, w == 2 ? other_type(4) : 4); describe("violation %d", w); rej("the logarithm of images that do not match", [&] { simple_mat_log(a, o); }); }
  }
}
typedef void (*Thr)(S, S, int, int);
static void process() {
  Dims2 d = gen_dims2(60, 9); if (d.r < 2) d.r = 2; if (d.c < 2) d.c = 2; int ch = chance(1, 2) ? 1 : 3;
  switch (draw(17)) {
    case 0: { int f = (int)draw(3), w = (int)draw(4); S m = mat(d.r, d.c, 1, ch); P p = other(d.r, d.c); S o = w == 3 && f < 2 ? mat(d.r, d.c, 1, other_ch(ch)) : mat(p.r, p.c, 1, ch); describe("flip %d, violation %d", f, w); rej("flipping into an image that does not match", [&] { S a = w == 0 ? NULL : m, b = w == 1 ? NULL : o; if (f == 0) simple_mat_flip_horizontal(a, b); else if (f == 1) simple_mat_flip_vertical(a, b); else simple_mat_flip(a, b, 1); }); break; }
    case 1: { bool up = chance(1, 2); int w = (int)draw(5); int r = up ? d.r * 2 : (d.r + 1) / 2, c = up ? d.c * 2 : (d.c + 1) / 2; P p = w == 2 ? other(r, c) : P{r, c}; S m = w == 4 ? (chance(1, 2) ? mat(1, d.c, 1, ch) : mat(d.r, 1, 1, ch)) : mat(d.r, d.c, 1, ch), o = w == 4 ? mat(up ? m->rows * 2 : (m->rows + 1) / 2, up ? m->cols * 2 : (m->cols + 1) / 2, 1, ch) : mat(p.r, p.c, w == 3 ? other_type(1) : 1, ch); describe("%s, violation %d", up ? "up" : "down", w); rej("a pyramid step into an image that does not match", [&] { (up ? hypercv_pyramid_up : hypercv_pyramid_down)(w == 0 ? NULL : m, w == 1 ? NULL : o); }); break; }
    case 2: case 3: { Thr f[5] = {hypercv_threshold_binary, hypercv_threshold_binary_inv, hypercv_threshold_trunc, hypercv_threshold_tozero, hypercv_threshold_tozero_inv}; int k = (int)draw(7), w = (int)draw(6), bt = 0; int c2 = w == 4 ? (int)range(2, 4) : 1; P p = w == 2 ? other(d.r, d.c) : P{d.r, d.c}; S m = mat(d.r, d.c, w == 3 ? other_type(1) : 1, c2), o = mat(p.r, p.c, 1, w == 5 ? 3 : c2); if (k == 6) { if (chance(1, 2)) { bt = pick({0, 1, 2, 3, 4, 8}); } else { do bt = (int)range(-3, 20); while ((bt >= 0 && bt <= 4) || bt == 7 || bt == 8 || bt == 16); } }
      describe("threshold %d type %d, violation %d", k, bt, w); rej("thresholding images that do not match", [&] { S a = w == 0 ? NULL : m, b = w == 1 ? NULL : o; if (k < 5) f[k](a, b, 100, 200); else if (k == 5) hypercv_threshold_otsu(a, b); else hypercv_threshold(a, b, 100, 200, bt); }); break; }
    case 4: { int w = (int)draw(4), k = w == 2 ? neg() : (int)range(1, 3), bt = w == 3 ? bad_border() : gen_border(); S m = mat(d.r, d.c), o = mat(d.r, d.c); describe("size %d border %d, violation %d", k, bt, w); rej("a laplacian that cannot be computed", [&] { hypercv_laplacian(w == 0 ? NULL : m, w == 1 ? NULL : o, k, bt); }); break; }
    case 5: { int w = (int)draw(3), bt = w == 0 ? bad_border() : gen_border(); P p = w == 1 ? other(d.r, d.c) : P{d.r, d.c}; int c2 = w == 2 ? (int)range(2, 4) : 1; S m = mat(d.r, d.c, 1, c2), o = mat(p.r, p.c, 1, c2); describe("border %d, violation %d", bt, w); rej("a sobel that cannot be computed", [&] { hypercv_sobel(m, o, 50, bt); }); break; }
    case 6: { int f = (int)draw(4); bool w = chance(1, 2); S m = mat(d.r, d.c), o = mat(d.r, d.c); S_2D s = create_2D_struct(3, 3); describe("operation %d, %s", f, w ? "no image" : "no element"); rej("morphology without an image or an element", [&] { S a = w ? NULL : m; S_2D e = w ? s : NULL; if (f == 0) hypercv_corrosion(a, o, e); else if (f == 1) hypercv_expend(a, o, e); else if (f == 2) hypercv_open(a, o, e, 1); else hypercv_close(a, o, e, 1); }); break; }
    case 7: { float k[25]; for (float& x : k) x = 1; int w = (int)draw(4); S m = mat(d.r, d.c, 1, ch), o = mat(d.r, d.c, w == 3 ? other_type(4) : 4, ch); describe("violation %d", w); rej("a filter without image, kernel or float result", [&] { hypercv_filter2D(w == 0 ? NULL : m, w == 1 ? NULL : o, w == 2 ? NULL : k, 3, 3, 1); }); break; }
    case 8: { bool w = chance(1, 2); int k = w ? 3 : chance(1, 2) ? 2 * (int)range(1, 5) : chance(1, 2) ? 0 : -(int)range(1, 9); S m = mat(d.r, d.c), o = mat(d.r, d.c); describe("size %d", k); rej("a median without an image or of an even size", [&] { hypercv_medianblur(w ? NULL : m, o, k); }); break; }
    case 9: { bool w = chance(1, 2); int k = w ? 3 : neg(); S m = mat(d.r, d.c), o = mat(d.r, d.c); describe("size %d", k); rej("a mean filter without an image or a size", [&] { hypercv_meanblur(w ? NULL : m, o, k); }); break; }
    case 10: { bool w = chance(1, 2); int k = w ? neg() : (int)range(1, 9), t = w ? 4 + (int)draw(2) : 0; if (!w) do t = (int)range(-1, 16); while (t == 4 || t == 5); describe("size %d type %d", k, t); rej("a gaussian kernel without a size or of another type", [&] { gaussian_kernel(k, 1.0, t); }); break; }
    case 11: { int w = (int)draw(4), kw = 3, kh = 5, bt = gen_border(); if (w == 1) kw = chance(1, 2) ? 2 * (int)range(1, 4) : neg(); if (w == 2) kh = chance(1, 2) ? 2 * (int)range(1, 4) : neg(); if (w == 3) bt = bad_border(); S m = mat(d.r, d.c, 1, ch), o = mat(d.r, d.c, 1, ch); describe("%dx%d border %d, violation %d", kw, kh, bt, w); rej("a gaussian blur that cannot be computed", [&] { hypercv_gaussian_blur(w == 0 ? NULL : m, o, kw, kh, 1, 1, bt); }); break; }
    case 12: { int w = (int)draw(3), c2 = w == 1 ? (chance(1, 2) ? 2 : 4) : ch, bt = w == 2 ? bad_border() : gen_border(); S m = mat(d.r, d.c, 1, c2), o = mat(d.r, d.c, 1, c2), kx = mat(1, 3, 4), ky = mat(1, 5, 4); describe("border %d, violation %d", bt, w); rej("a blur with kernels that cannot be computed", [&] { hypercv_gaussian_blur_with_kernel(w == 0 ? NULL : m, o, kx, ky, bt); }); break; }
    case 13: { int w = (int)draw(5); S m = mat(d.r, d.c, w == 1 ? other_type(1) : 1, w == 2 ? (int)range(2, 4) : 1), o = mat(d.r, d.c, w == 3 ? other_type(3) : 3, w == 4 ? (int)range(2, 4) : 1); describe("violation %d", w); rej("an integral image of something else than gray", [&] { hypercv_integral(w == 0 ? NULL : m, o); }); break; }
    case 14: { int b[4], w = (int)draw(6), bt = w == 5 ? bad_border() : (int)range(0, 4); for (int& x : b) x = (int)range(0, 4); if (w < 4) b[w] = -1 - (int)draw(3); S m = mat(d.r, d.c, 1, ch); describe("%d,%d,%d,%d border %d", b[0], b[1], b[2], b[3], bt); rej("a border that is negative or of an unknown type", [&] { hypercv_copy_make_border(w == 4 ? NULL : m, b[0], b[1], b[2], b[3], bt, 7); }); break; }
    case 15: { int bt = bad_border(), len = (int)range(1, 9), p = (int)range(-20, 20); describe("border %d", bt); rej("an index for an unknown border", [&] { hypercv_border_Interpolate(p, len, bt); }); break; }
    default: { int f = (int)draw(4), w = (int)draw(5); S m, o = NULL; if (f < 2) m = mat(d.r, d.c, 1, (int)range(2, 4)); else if (f == 2) m = mat(d.r, d.c, 1, pick({1, 2, 4})); else { P p = w == 2 ? other(d.r, d.c) : P{d.r, d.c}; int c2 = w == 4 ? pick({1, 2, 4}) : 3; m = mat(d.r, d.c, w == 3 ? other_type(1) : 1, c2); o = mat(p.r, p.c, 1, c2); } describe("conversion %d, violation %d", f, w); rej("a colour conversion of other channels", [&] { if (f == 0) sm_binary2rgb(m); else if (f == 1) sm_gray2rgb(m); else if (f == 2) sm_rgb2gray(m, 0); else sm_bgr2rgb(w == 0 ? NULL : m, w == 1 ? NULL : o); }); }
  }
}
extern "C" float cal_edge_signal_energy(simple_mat) __attribute__((weak));
static void algorithm() {
  Dims2 d = gen_dims2(60, 9); int dt = pick({1, 12});
  switch (draw(10)) {
    case 0: case 1: { int w = (int)draw(8); P p = w == 3 || w == 4 ? other(d.r, d.c) : P{d.r, d.c}; S m = mat(d.r, d.c, dt, w == 7 ? (int)range(2, 4) : 1), re = mat(w == 3 ? p.r : d.r, w == 3 ? p.c : d.c, w == 5 ? other_type(4) : 4), im = mat(w == 4 ? p.r : d.r, w == 4 ? p.c : d.c, w == 6 ? other_type(4) : 4); describe("violation %d", w); rej("a DFT of images that do not match", [&] { hypercv_dft(w == 0 ? NULL : m, w == 1 ? NULL : re, w == 2 ? NULL : im); }); break; }
    case 2: case 3: { int w = (int)draw(6); bool mg = chance(1, 3); int ot = mg ? 4 : dt; P p = other(d.r, d.c); S re = mat(w == 0 ? p.r : d.r, w == 0 ? p.c : d.c, w == 3 || w == 5 ? other_type(4) : 4), im = mat(w == 1 ? p.r : d.r, w == 1 ? p.c : d.c, w == 4 ? other_type(4) : w == 5 ? re->data_type : 4), o = mat(w == 2 ? p.r : d.r, w == 2 ? p.c : d.c, ot); describe("%s, violation %d", mg ? "magnitude" : "inverse", w); rej("an inverse DFT or magnitude of images that do not match", [&] { (mg ? hypercv_magnitude : hypercv_idft)(re, im, o); }); break; }
    case 4: { int w = (int)draw(3); P p = other(d.r, d.c); S m = mat(d.r, d.c), o = mat(p.r, p.c); rej("a spectrum image that does not match", [&] { hypercv_dft_frespectrum(w == 0 ? NULL : m, w == 1 ? NULL : o); }); break; }
    case 5: { S m = mat(d.r, d.c); POINT* v = NULL; int k = (int)range(1, 4), w = (int)draw(3), n = w == 2 ? (k == 1 || chance(1, 2) ? k + 1 : k - 1) : k; POINT z; z.x = z.y = 0; for (int i = 0; i < n; i++) vector_push_back(v, z); int kind = w == 1 ? neg() : k; describe("%d centres, vector of %d", kind, n); rej("clustering without an image or with a wrong number of centres", [&] { hypercv_k_means(w == 0 ? NULL : m, v, kind, 1); }); break; }
    case 6: { int w = (int)draw(3); P p = other(d.r, d.c); S m = mat(d.r, d.c), o = mat(p.r, p.c); rej("equalising into an image that does not match", [&] { HisEqualization(w == 0 ? NULL : m, w == 1 ? NULL : o); }); break; }
    case 7: { int w = (int)draw(3), t = pick({1, 4}); P p = other(d.r, d.c); S m = mat(d.r, d.c, t), o = mat(p.r, p.c, 4); rej("normalising into an image that does not match", [&] { hypercv_normalize(w == 0 ? NULL : m, w == 1 ? NULL : o, 1, 0, pick({1, 2, 4, 32})); }); break; }
    case 8: { double hu[7]; int w = (int)draw(3); S m = mat(d.r, d.c); rej("moments of no image", [&] { if (w == 0) calc_hu_moment(hu, NULL); else hypercv_match_shapes(w == 1 ? NULL : m, w == 1 ? m : NULL); }); break; }
    default: { if (cal_edge_signal_energy && chance(1, 3)) { int w = (int)draw(3); S m = mat(d.r, d.c, w == 1 ? other_type(1) : 1, w == 2 ? (int)range(2, 4) : 1); rej("the edge energy of something else than gray", [&] { cal_edge_signal_energy(w == 0 ? NULL : m); }); break; }
      int w = (int)draw(5), ch = chance(1, 2) ? 1 : 3; P p = w == 2 ? other(d.r, d.c) : P{d.r, d.c}; S m = mat(d.r, d.c, w == 3 ? other_type(1) : 1, ch), o = mat(p.r, p.c, 1, w == 4 ? other_ch(ch) : ch); POINT a, b; a.x = a.y = 0; b.x = b.y = 3; RGB_data col; col.r = col.g = col.b = 9; bool ln = chance(1, 2); describe("%s, violation %d", ln ? "line" : "point", w); rej("drawing into an image that does not match", [&] { S x = w == 0 ? NULL : m, y = w == 1 ? NULL : o; if (ln) draw_line(x, y, a, b, col, 1); else draw_POINT(x, y, &a, 1, col, 1); }); }
  }
}
static void cxx() {
  using hypercv::HyMat; Dims d = small(); int dt = gen_type(), il = gen_il();
  int op = (int)draw(6);
  if (op == 0) { int w = (int)draw(5), v = neg(), t = w == 3 ? bad_type() : dt, f = w == 4 ? (chance(1, 2) ? 3 + (int)draw(20) : -1 - (int)draw(20)) : il; int s = w == 0 ? v : d.s, l = w == 1 ? v : d.l, b = w == 2 ? v : d.b; write_file("f", "abc", 3); bool rd = chance(1, 2); describe("%dx%dx%d type %d format %d", s, l, b, t, f); if (rd) rej("reading a C++ cube of an impossible size, type or layout", [&] { hypercv::hmread("f", s, l, b, t, f); }); else rej("a C++ cube of an impossible size, type or layout", [&] { HyMat m(s, l, b, t, f); }); return; }
  if (op == 1) { int v[3] = {(int)range(1, 70000), (int)range(1, 70000), 0}; int64_t lo = (int64_t)floor(2147483647.0 / ((double)v[0] * v[1] * esize(dt))) + 1; if (lo > INT_MAX) discard(); v[2] = (int)(chance(1, 2) ? lo : range(lo, std::min<int64_t>(lo * 8, INT_MAX))); std::swap(v[0], v[draw(3)]); describe("%dx%dx%d type %d", v[0], v[1], v[2], dt); rej("a C++ cube beyond the range of int", [&] { HyMat m(v[0], v[1], v[2], dt, il); }); return; }
  if (op == 2) { int lay[6] = {2, 0, 2, 1, 1, 0}, w = (int)draw(6); HyMat (*f[6])(HyMat&) = {hypercv::bil2bsq, hypercv::bil2bip, hypercv::bsq2bil, hypercv::bsq2bip, hypercv::bip2bsq, hypercv::bip2bil}; HyMat m(d.s, d.l, d.b, dt, lay[w]); describe("function %d", w); rej("converting a C++ cube of the third layout", [&] { f[w](m); }); m.release(); return; }
  HyMat m(d.s, d.l, d.b, dt, il); Bytes q(m.dataSize); fill_bytes(q.data(), q.size()); memcpy(m.data, q.data(), q.size());
  if (op == 3) { int f = chance(1, 2) ? 3 + (int)draw(20) : -1 - (int)draw(20); describe("layout %d", f); rej("converting a C++ cube to an unknown layout", [&] { m.convertTo(f); }); }
  else if (op == 4) { int lo[3], hi[3], len[3] = {d.l, d.s, d.b}; for (int i = 0; i < 3; i++) { lo[i] = (int)draw(len[i]); hi[i] = (int)range(lo[i] + 1, len[i]); } int w = (int)draw(3); switch (draw(3)) { case 0: hi[w] = len[w] + 1 + (int)draw(2); break; case 1: lo[w] = -1 - (int)draw(2); break; default: lo[w] = hi[w] + (int)draw(2); break; } describe("rows %d-%d columns %d-%d bands %d-%d of %dx%dx%d", lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], d.l, d.s, d.b); rej("a sub-cube outside the C++ cube", [&] { m.range(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); }); }
  else { std::string h = "ENVI\n"; int miss = (int)draw(4); const char* k[] = {"samples", "lines", "bands", "data type"}; int v[] = {d.s, d.l, d.b, dt}; for (int i = 0; i < 4; i++) if (i != miss) h += std::string(k[i]) + " = " + std::to_string(v[i]) + "\n"; h += std::string("interleave = ") + ILS[il] + "\n"; write_file("f", "abc", 3); write_file("h", h.data(), h.size()); describe("no %s", k[miss]); rej("reading a C++ cube with an incomplete header", [&] { hypercv::hmread("f", "h"); }); }
  REQUIRE(memcmp(m.data, q.data(), q.size()) == 0 && m.format == il, "a rejected call changed a C++ cube");
  m.release();
}
static void rest() {
  Dims2 d = gen_dims2(60, 9); typedef void (*F3)(S, S, S);
  switch (draw(9)) {
    case 0: { bool us = chance(1, 2); int w = (int)draw(9); P p = other(d.r, d.c); S m = mat(d.r, d.c, us ? 12 : 1, w == 7 ? (int)range(2, 4) : 1), re = mat(w == 3 ? p.r : d.r, w == 3 ? p.c : d.c, w == 5 ? other_type(4) : 4, w == 8 ? (int)range(2, 4) : 1), im = mat(w == 4 ? p.r : d.r, w == 4 ? p.c : d.c, w == 6 ? other_type(4) : 4); F3 f = us ? (F3)hypercv_dft_ushort : (F3)hypercv_dft_uchar; describe("%s, violation %d", us ? "ushort" : "uchar", w); rej("a DFT of one type of images that do not match", [&] { f(w == 0 ? NULL : m, w == 1 ? NULL : re, w == 2 ? NULL : im); }); break; }
    case 1: { int k = (int)draw(3), ot = k == 0 ? 1 : k == 1 ? 12 : 4, w = (int)draw(6); F3 f = k == 0 ? (F3)hypercv_idft_uchar : k == 1 ? (F3)hypercv_idft_ushort : (F3)hypercv_magnitude; P p = other(d.r, d.c); S re = mat(w == 0 ? p.r : d.r, w == 0 ? p.c : d.c, w == 3 ? other_type(4) : 4), im = mat(w == 1 ? p.r : d.r, w == 1 ? p.c : d.c, w == 4 ? other_type(4) : 4), o = mat(w == 2 ? p.r : d.r, w == 2 ? p.c : d.c, w == 5 ? other_type(ot) : ot); describe("inverse %d, violation %d", k, w); rej("an inverse DFT or magnitude of one type of images that do not match", [&] { f(re, im, o); }); break; }
    case 2: { bool fl = chance(1, 2); int w = (int)draw(3); P p = other(d.r, d.c); S m = mat(d.r, d.c, fl ? 4 : 1), o = mat(p.r, p.c, 4); describe("%s, violation %d", fl ? "float" : "uchar", w); rej("normalising one type of image into one that does not match", [&] { (fl ? hypercv_normalize_float : hypercv_normalize_uchar)(w == 0 ? NULL : m, w == 1 ? NULL : o, 1, 0, pick({1, 2, 4, 32})); }); break; }
    case 3: { bool w = chance(1, 2); S m = mat(d.r, d.c, other_type(4), (int)range(1, 3)); rej("rounding an image that is not float", [&] { simple_mat_float2uchar(w ? NULL : m); }); break; }
    case 4: { S m = mat(d.r, d.c, 4); int r[2] = {(int)draw(d.r), (int)draw(d.r)}; int w = (int)draw(3); if (w < 2) { r[w] = chance(1, 2) ? d.r + (int)draw(chance(1, 2) ? 1 : 50) : -1 - (int)draw(chance(1, 2) ? 1 : 50); } else r[1] = r[0]; describe("rows %d and %d of %d", r[0], r[1], d.r); rej("exchanging rows that are not there", [&] { swap_rows_float((float*)m->data, d.r, d.c, r[0], r[1]); }); break; }
    case 5: { int a = (int)range(2, 2000000); int64_t lo = (int64_t)floor(2147483647.0 / a) + 1; if (lo > INT_MAX) discard(); int b = (int)(chance(1, 2) ? lo : range(lo, std::min<int64_t>(lo * 8, INT_MAX))); if (chance(1, 2)) std::swap(a, b); describe("%dx%d", a, b); rej("a structuring element beyond the range of int", [&] { create_2D_struct(a, b); }); break; }
    case 6: { int dt = gen_type(), v[3] = {(int)range(1, 70000), (int)range(1, 70000), 0}; double p = (double)v[0] * v[1] * esize(dt); int64_t lo = (int64_t)floor(2147483647.0 / p) + 1; if (lo > INT_MAX) discard(); v[2] = (int)(chance(1, 2) ? lo : range(lo, std::min<int64_t>(lo * 8, INT_MAX))); std::swap(v[0], v[draw(3)]); std::swap(v[2], v[draw(3)]);
      std::string h = "ENVI\nsamples = " + std::to_string(v[0]) + "\nlines = " + std::to_string(v[1]) + "\nbands = " + std::to_string(v[2]) + "\ndata type = " + std::to_string(dt) + "\ninterleave = " + ILS[gen_il()] + "\n"; write_file("f", "abc", 3); write_file("h", h.data(), h.size()); bool cxx = chance(1, 2); describe("%dx%dx%d type %d%s", v[0], v[1], v[2], dt, cxx ? ", C++" : ""); rej("a header of a cube beyond the range of int", [&] { if (cxx) hypercv::hmread("f", "h"); else hmread_with_hdr("f", "h"); }); break; }
    case 7: { Dims c = small(); H m = cube(c, gen_type(), 0); rej("transposing without a cube", [&] { hyper_mat_transport(m, NULL); }); break; }
    default: { hypercv::HyMat m; if (chance(1, 2)) { Dims c = small(); m = hypercv::HyMat(c.s, c.l, c.b, gen_type(), 1); m.release(); } bool w = chance(1, 2); rej("converting an empty C++ cube", [&] { if (w) hypercv::bil2bsq(m); else hypercv::bil2bip(m); }); }
  }
}
static void body() {
  ts.clear(); th.clear();
  switch (weighted({6, 4, 4, 7, 4, 2, 4})) { case 0: cubes(); label("cubes and files"); break; case 1: bands(); label("bands, spectra, types"); break; case 2: images(); label("images"); break; case 3: process(); label("image processing"); break; case 4: algorithm(); label("algorithms and drawing"); break; case 5: cxx(); label("C++ cubes"); break; default: rest(); label("functions for one type, rows, headers"); }
  for (auto& t : ts) delete_simple_mat(t.first); for (auto& t : th) delete_hyper_mat(t.first); ts.clear(); th.clear();
  nontrivial();
}
namespace pbt { Property property_under_test = {"C30",
  "a call that would be valid with exactly one thing made wrong: no object, a size, type, layout or channel count that does not match, a parameter out of range, a file that cannot be opened or a header without a field; it must print a line starting with ERROR, exit with a failing status and leave the images and cubes it was given as they were; every case is non-trivial",
  240000, 1440000, 200, body, {"a missing image or header file makes the C readers of cubes return no cube instead", "checks the functions make on entry; functions without a check of an argument are not called with it wrong"}}; }
