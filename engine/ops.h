// The public operations, each with generated valid arguments, as calls that can be repeated.
#pragma once
#include <iostream>
#include <fstream>
#include <sstream>
#include "hcv.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes(); extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#include "cxx_include/hypercv_core.hpp"
using hypercv::HyMat;
typedef simple_mat S; typedef hyper_mat H;
extern "C" { long hypercv_factorial(int) __attribute__((weak)); float cal_edge_signal_energy(simple_mat) __attribute__((weak)); wavelet_base* set_wavelet_base(int) __attribute__((weak)); void wavelet_base_free(wavelet_base*) __attribute__((weak)); }
extern "C" {
#include "satellite/hypercv_satellite.h"
}

// what new memory and new destinations hold, different in every round
static int g_junk = -1;
static void on_malloc(const volatile void* p, size_t n) { if (g_junk >= 0 && n && n <= 60000) memset((void*)p, g_junk, n); }
static void on_free(const volatile void*) {}
static thread_local uint64_t g_hash; static thread_local int g_lane;   // several lanes may run at once
static const char* lane(const char* name) { static thread_local char b[4][64]; static thread_local int i; i = (i + 1) % 4; if (!g_lane) return name; snprintf(b[i], 64, "t%d%s", g_lane, name); return b[i]; }
static void mix(const void* p, size_t n) { const unsigned char* q = (const unsigned char*)p; uint64_t h = g_hash; for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 0x100000001b3ull; } h ^= n; h *= 0x100000001b3ull; g_hash = h; }
template <class T> static void val(T x) { mix(&x, sizeof x); }
static void keep(S m) { val(m->rows); val(m->cols); val(m->data_type); val(m->channels); mix(m->data, mat_elems(m) * esize(m->data_type)); }
static void keep(H m) { val(m->samples); val(m->lines); val(m->bands); val(m->data_type); mix(m->interleave, 3); mix(m->data, cube_bytes(m)); mix(m->wavelength, m->bands * 4); }
static void done(S m) { if (!m) { val(0); return; } keep(m); delete_simple_mat(m); }
static void done(H m) { if (!m) { val(0); return; } keep(m); delete_hyper_mat(m); }
static void done(HyMat m) { val(m.samples); val(m.lines); val(m.bands); val(m.dataType); val(m.format); mix(m.data, m.dataSize); mix(m.wavelength, m.bands * 4); m.release(); }
static S D(int r, int c, int dt = 1, int ch = 1) { S m = create_simple_mat(r, c, dt, ch); memset(m->data, g_junk & 255, mat_elems(m) * esize(dt)); return m; }
static H DC(const Dims& d, int dt, int il) { H m = create_hyper_mat(d.s, d.l, d.b, dt, ILS[il]); memset(m->data, g_junk, cube_bytes(m)); return m; }
struct Buf { void* p; size_t n; explicit Buf(size_t k) : p(new char[k]), n(k) { memset(p, g_junk, n); } template <class T> T* as() { return (T*)p; } void done() { mix(p, n); delete[] (char*)p; p = NULL; } };

// the arguments
static std::vector<std::pair<S, Bytes>> ts; static std::vector<std::pair<H, Bytes>> th; static std::vector<std::pair<void*, Bytes>> tb;
static S in(S m) { ts.push_back({m, snapshot(m)}); return m; }
static H in(H m) { th.push_back({m, snapshot(m)}); return m; }
template <class T> static T* arr(const std::vector<T>& v) { size_t n = v.size() * sizeof(T); void* p = malloc(n ? n : 1); if (n) memcpy(p, v.data(), n); tb.push_back({p, Bytes((unsigned char*)p, (unsigned char*)p + n)}); return (T*)p; }
static std::vector<float> floats(size_t n, double lo = -3, double hi = 3) { Bulk b = bulk(); std::vector<float> v(n); for (float& x : v) x = (float)(lo + (hi - lo) * b.unit()); return v; }
static S gray(const Dims2& d, int ch = 1) { return in(new_u8(d.r, d.c, ch)); }
static S fmat(const Dims2& d, int ch = 1, double lo = -3, double hi = 3) { S m = create_simple_mat(d.r, d.c, 4, ch); std::vector<float> v = floats(mat_elems(m), lo, hi); memcpy(m->data, v.data(), v.size() * 4); return in(m); }
static H fcube(const Dims& d, int il, double lo = -3, double hi = 3) { H m = create_hyper_mat(d.s, d.l, d.b, 4, ILS[il]); std::vector<float> v = floats((size_t)d.s * d.l * d.b, lo, hi); memcpy(m->data, v.data(), v.size() * 4); gen_waves(m); return in(m); }
struct Op { const char* name; std::function<void()> run; };
// several calls of one function on arguments of one size
static int g_nth = -1; static bool g_same; static Dims2 g_d2; static Dims g_d3;
static int nth(int n) { return g_nth >= 0 ? g_nth % n : (int)draw(n); }
static void one_size(bool on) { g_same = on; g_d2 = Dims2{0, 0}; g_d3 = Dims{0, 0, 0}; }
static Dims2 size2(int lo = 1) { if (g_same && g_d2.r >= lo && g_d2.c >= lo) return g_d2; Dims2 d = gen_dims2(chance(1, 40) ? 20000 : 900, chance(1, 40) ? 3000 : 60, lo); if (g_same) g_d2 = d; return d; }
static Dims size3(int maxb = 1000) { if (g_same && g_d3.b) return g_d3; Dims d = gen_dims(chance(1, 40) ? 40000 : 1200, chance(1, 40) ? 3000 : 80); d.b = std::min(d.b, maxb); if (g_same) g_d3 = d; return d; }
static POINT* points(int k) { bool c = g_count_allocs; if (c) g_count_allocs = false; POINT* v = NULL; POINT z; z.x = z.y = 0; for (int i = 0; i < k; i++) vector_push_back(v, z); if (c) g_count_allocs = c; return v; }
static int odd(int hi) { return 2 * (int)range(0, hi) + 1; }

static Op images() {
  int ch = pick({1, 1, 3});
  switch (nth(29)) {
    case 0: { int dt = gen_type(), c = (int)range(1, 4); Dims2 d = size2(); S m = create_simple_mat(d.r, d.c, dt, c); fill_bytes(m->data, mat_elems(m) * esize(dt)); in(m); return {"simple_mat_copy", [=] { done(simple_mat_copy(m)); }}; }
    case 1: { int dt = gen_type(); Dims2 d = size2(); S m = create_simple_mat(d.r, d.c, dt, 1); fill_bytes(m->data, mat_elems(m) * esize(dt)); in(m); return {"simple_mat_transport", [=] { S o = D(d.c, d.r, dt); simple_mat_transport(o, m); done(o); }}; }
    case 2: { Dims2 d = size2(); S a = gray(d), b = gray(d); return {"simple_mat_addition_uchar", [=] { S o = D(d.r, d.c); simple_mat_addition_uchar(a, b, o); done(o); }}; }
    case 3: { Dims2 d = size2(); S a = fmat(d), b = fmat(d); return {"simple_mat_addition_float", [=] { S o = D(d.r, d.c, 4); simple_mat_addition_float(a, b, o); done(o); }}; }
    case 4: { Dims2 d = size2(); S a = fmat(d, 1, 0.1, 30); return {"simple_mat_log", [=] { S o = D(d.r, d.c, 4); simple_mat_log(a, o); done(o); }}; }
    case 5: { Dims2 d = size2(); S a = gray(d); return {"simple_mat_mean", [=] { val(simple_mat_mean(a)); }}; }
    case 6: { Dims2 d = size2(); S a = gray(d); return {"simple_mat_variance", [=] { val(simple_mat_variance(a)); }}; }
    case 7: { Dims2 d = size2(2); S a = gray(d, ch); return {"simple_mat_contrast_ratio", [=] { val(simple_mat_contrast_ratio(a)); }}; }
    case 8: { Dims2 d = size2(); S a = gray(d, ch); return {"simple_mat_grayscale_statistics", [=] { Buf b(256 * 4); memset(b.p, 0, b.n); simple_mat_grayscale_statistics(a, b.as<int>()); b.done(); }}; }
    case 9: { Dims2 d = size2(); S a = gray(d, ch); return {"simple_mat_entropy", [=] { val(simple_mat_entropy(a)); }}; }
    case 10: { Dims2 d = size2(); int f = (int)range(-1, 2), c = (int)range(1, 4); S a = gray(d, c); return {"simple_mat_flip", [=] { S o = D(d.r, d.c, 1, c); simple_mat_flip(a, o, f); done(o); }}; }
    case 11: { Dims2 d = size2(2); S a = gray(d, ch); return {"hypercv_pyramid_down", [=] { S o = D((d.r + 1) / 2, (d.c + 1) / 2, 1, ch); hypercv_pyramid_down(a, o); done(o); }}; }
    case 12: { Dims2 d = size2(2); S a = gray(d, ch); return {"hypercv_pyramid_up", [=] { S o = D(d.r * 2, d.c * 2, 1, ch); hypercv_pyramid_up(a, o); done(o); }}; }
    case 13: { Dims2 d = size2(); int t = pick({0, 1, 2, 3, 4, 8}), th = (int)range(0, 255), mx = (int)range(0, 255); S a = gray(d); return {"hypercv_threshold", [=] { S o = D(d.r, d.c); hypercv_threshold(a, o, th, mx, t == 8 ? 0 : t); if (t == 8) hypercv_threshold_otsu(a, o); done(o); val(t == 8 ? otsuThreshold(a) : 0); }}; }
    case 14: { Dims2 d = size2(); int kr = odd(3), kc = odd(3), bt = gen_border(); S a = gray(d, ch); float* k = arr(floats(kr * kc)); return {"hypercv_filter2D", [=] { S o = D(d.r, d.c, 4, ch); hypercv_filter2D(a, o, k, kr, kc, bt); done(o); }}; }
    case 15: { Dims2 d = size2(); int k = odd(3); S a = gray(d); return {"hypercv_medianblur", [=] { S o = D(d.r, d.c); memcpy(o->data, a->data, mat_elems(a)); hypercv_medianblur(a, o, k); done(o); }}; }
    case 16: { Dims2 d = size2(); int k = odd(3); S a = gray(d); return {"hypercv_meanblur", [=] { S o = D(d.r, d.c); memcpy(o->data, a->data, mat_elems(a)); hypercv_meanblur(a, o, k); done(o); }}; }
    case 17: { int k = (int)range(1, 20), t = pick({4, 5}); double s = chance(1, 2) ? 0 : 0.3 + unit() * 4; return {"gaussian_kernel", [=] { done(gaussian_kernel(k, s, t)); }}; }
    case 18: { Dims2 d = size2(); int kw = odd(4), kh = odd(4), bt = gen_border(); double s1 = chance(1, 2) ? 0 : 0.3 + unit() * 3, s2 = chance(1, 2) ? 0 : 0.3 + unit() * 3; S a = gray(d, ch); return {"hypercv_gaussian_blur", [=] { S o = D(d.r, d.c, 1, ch); hypercv_gaussian_blur(a, o, kw, kh, s1, s2, bt); done(o); }}; }
    case 19: { Dims2 d = size2(); int kw = odd(4), kh = odd(4), bt = gen_border(); S a = gray(d, ch), kx = fmat(Dims2{1, kw}, 1, 0, 0.3), ky = fmat(Dims2{1, kh}, 1, 0, 0.3); return {"hypercv_gaussian_blur_with_kernel", [=] { S o = D(d.r, d.c, 1, ch); hypercv_gaussian_blur_with_kernel(a, o, kx, ky, bt); done(o); }}; }
    case 20: { Dims2 d = size2(); S a = gray(d); return {"hypercv_integral", [=] { S o = D(d.r, d.c, 3); hypercv_integral(a, o); done(o); }}; }
    case 21: { Dims2 d = size2(); int b[4]; for (int& x : b) x = (int)range(0, 9); int t = b[0], u = b[1], v = b[2], w = b[3], bt = (int)range(0, 4); S a = gray(d, ch); return {"hypercv_copy_make_border", [=] { done(hypercv_copy_make_border(a, t, u, v, w, bt, 77)); }}; }
    case 22: { Dims2 d = size2(); int w = (int)range(1, std::min(5, d.c)), h = (int)range(1, std::min(5, d.r)), f = (int)draw(4), it = (int)range(1, 3); S a = gray(d); return {"morphology", [=] { S o = D(d.r, d.c); S_2D s = create_2D_struct(w, h); if (f == 0) hypercv_corrosion(a, o, s); else if (f == 1) hypercv_expend(a, o, s); else if (f == 2) hypercv_open(a, o, s, it); else hypercv_close(a, o, s, it); free(s->data); delete_S_2D(s); done(o); }}; }
    case 23: { Dims2 d = size2(); int bt = gen_border(), t = (int)range(0, 255); S a = gray(d); return {"hypercv_sobel", [=] { S o = D(d.r, d.c); hypercv_sobel(a, o, t, bt); done(o); }}; }
    case 24: { Dims2 d = size2(); int bt = gen_border(), k = pick({1, 3, 5}); S a = gray(d); return {"hypercv_laplacian", [=] { S o = D(d.r, d.c); hypercv_laplacian(a, o, k, bt); done(o); }}; }
    case 25: { Dims2 d = size2(); S a = in(new_u8(d.r, d.c, 1)); return {"sm_gray2rgb, sm_binary2rgb", [=] { done(sm_gray2rgb(a)); done(sm_binary2rgb(a)); }}; }
    case 26: { Dims2 d = size2(); S a = gray(d, 3); int f = (int)draw(2); return {"sm_rgb2gray, sm_bgr2rgb", [=] { done(sm_rgb2gray(a, f)); S o = D(d.r, d.c, 1, 3); sm_bgr2rgb(a, o); done(o); }}; }
    case 27: { Dims2 d = size2(); S a = fmat(d, ch, -50, 300); return {"simple_mat_float2uchar", [=] { done(simple_mat_float2uchar(a)); }}; }
    default: { Dims2 d = size2(); S a = gray(d, ch); POINT p[2]; for (POINT& x : p) { x.x = (int)range(-5, d.c + 5); x.y = (int)range(-5, d.r + 5); } POINT q = p[0], r = p[1]; int th = odd(3); bool ln = chance(1, 2); RGB_data c; c.r = 200; c.g = 100; c.b = 50; return {"drawing", [=] { S o = D(d.r, d.c, 1, ch); POINT v[2] = {q, r}; if (ln) draw_line(a, o, q, r, c, th); else draw_POINT(a, o, v, 2, c, th); done(o); }}; }
  }
}
static Op cubes() {
  Dims d = size3(); int dt = gen_type(), il = gen_il();
  switch (nth(15)) {
    case 0: { H m = in(gen_cube(d, dt, il)); return {"hyper_mat_copy", [=] { done(hyper_mat_copy(m)); }}; }
    case 1: { H m = in(gen_cube(d, dt, il)); return {"hyper_mat_copy_to", [=] { H o = DC(d, dt, il); hyper_mat_copy_to(m, o); done(o); }}; }
    case 2: { int to = gen_il(); H m = in(gen_cube(d, dt, il)); return {"convert2bsq, bil, bip", [=] { H o = hyper_mat_copy(m); (to == 0 ? convert2bsq : to == 1 ? convert2bil : convert2bip)(o); done(o); }}; }
    case 3: { int to = (il + 1 + (int)draw(2)) % 3; H m = in(gen_cube(d, dt, il)); return {"bil2bsq and the like", [=] { H (*f[3][3])(H) = {{NULL, bsq2bil, bsq2bip}, {bil2bsq, NULL, bil2bip}, {bip2bsq, bip2bil, NULL}}; done(f[il][to](m)); }}; }
    case 4: { int a[3], b[3], len[3] = {d.l, d.s, d.b}; for (int i = 0; i < 3; i++) { a[i] = (int)draw(len[i]); b[i] = (int)range(a[i] + 1, len[i]); } int x = a[0], y = a[1], z = a[2], u = b[0], v = b[1], w = b[2]; H m = in(gen_cube(d, dt, il)); return {"hyper_mat_get_range", [=] { done(hyper_mat_get_range(m, x, y, z, u, v, w)); }}; }
    case 5: { H m = in(gen_cube(d, dt, il)); return {"reshape_hypermat_2_simplemat", [=] { done(reshape_hypermat_2_simplemat(m, il == 2 ? d.s * d.l : d.b, il == 2 ? d.b : d.s * d.l)); }}; }
    case 6: { int k = (int)range(1, d.b); H m = in(gen_cube(d, dt, 0)); return {"hyper_mat_2_simple_mat", [=] { S o = D(d.l, d.s, dt); hyper_mat_2_simple_mat(m, o, k); done(o); }}; }
    case 7: { int k = (int)range(1, d.b); H m = in(gen_cube(d, dt, 0)); S s = create_simple_mat(d.l, d.s, dt, 1); fill_bytes(s->data, mat_elems(s) * esize(dt)); in(s); return {"simple_mat_2_hyper_mat", [=] { H o = hyper_mat_copy(m); simple_mat_2_hyper_mat(o, s, k); done(o); }}; }
    case 8: { int nb = (int)range(1, d.b), at = (int)range(0, d.s * d.l * (d.b - nb)); H m = in(gen_cube(d, dt, il)), p = in(gen_cube(Dims{d.s, d.l, nb}, dt, il)); return {"hyper_mat_splicing", [=] { H o = hyper_mat_copy(m); hyper_mat_splicing(o, p, at); done(o); }}; }
    case 9: { H m = in(gen_cube(d, dt, 0)); return {"hyper_mat_transport", [=] { H o = DC(Dims{d.l, d.s, d.b}, dt, 0); hyper_mat_transport(o, m); done(o); }}; }
    case 10: { if ((double)(d.s + d.l) * (d.s + d.l) * d.b > 2e6) { d.s = std::min(d.s, 400); d.l = std::min(d.l, 400); d.b = std::min(d.b, 3); } H m = in(gen_cube(d, dt, 2)); double a = chance(1, 2) ? (double)range(-8, 8) * 45 : unit() * 360; return {"hyper_mat_rotate", [=] { done(hyper_mat_rotate(m, a)); }}; }
    case 11: { int f = (int)draw(4); H m = in(gen_cube(d, 1, il)); return {"conversion from bytes", [=] { H (*c[4])(H) = {hyper_mat_uchar2short, hyper_mat_uchar2int, hyper_mat_uchar2float, hyper_mat_uchar2ushort}; done(c[f](m)); }}; }
    case 12: { int f = (int)draw(5); H m = fcube(d, il, -500, 70000); return {"conversion from floats", [=] { H (*c[5])(H) = {hyper_mat_float2char, hyper_mat_float2int, hyper_mat_float2short, hyper_mat_float2ushort, hyper_mat_float2uchar}; done(c[f](m)); }}; }
    case 13: { H m = in(gen_cube(d, 12, il)); return {"hyper_mat_ushort2float", [=] { done(hyper_mat_ushort2float(m)); }}; }
    default: { H m = fcube(d, 2); bool rel = chance(1, 2); float* c = arr(floats((size_t)d.b * d.s)); if (rel) { m = in(gen_cube(d, 12, 2)); } H mm = m; return {"radiometric correction", [=] { done(rel ? relative_radiometric_correction(mm, c) : absolute_radiometric_correction(mm, c)); }}; }
  }
}
static Op algorithms() {
  switch (nth(19)) {
    case 16: { int f = (int)draw(8), m = dim(8), k = dim(40), n = dim(8); static const int e[] = {1, 1, 2, 2, 4, 4, 4, 8}; Bytes x(m * k * e[f]), y(k * n * e[f]); if (f < 6) { fill_bytes(x.data(), x.size()); fill_bytes(y.data(), y.size()); } else if (f == 6) { auto u = floats(m * k), v = floats(k * n); memcpy(x.data(), u.data(), x.size()); memcpy(y.data(), v.data(), y.size()); } else { auto u = floats(m * k); double* q = (double*)x.data(); for (int i = 0; i < m * k; i++) q[i] = u[i]; }
      int es = e[f]; void *a = arr(x), *b = arr(y); return {"means and correlations", [=] { Buf z((size_t)m * n * es); switch (f) {
#define MC(i, T, N) case i: val(mean_##N((T*)a, m * k)); correlation_matrix_##N(z.as<T>(), (T*)a, (T*)b, m, k, n); z.done(); break;
        MC(0, char, char) MC(1, unsigned char, uchar) MC(2, short, short) MC(3, unsigned short, ushort) MC(4, int, int) MC(5, unsigned, uint) MC(6, float, float) default: val(mean_double((double*)a, m * k)); delete[] (char*)z.p; } }}; }
    case 17: { char t[40]; double v = (double)range(-100000, 100000) / 64; snprintf(t, sizeof t, chance(1, 2) ? "%.4e" : "%.6f", v); char* p = arr(std::vector<char>(t, t + strlen(t) + 1)); int k = (int)range(0, 12), n = dim(60), s = (int)range(1, 100000); float* q = arr(floats(n)); return {"numbers in text, sorts, DFT sizes", [=] { val(hypercv_atof(p)); if (hypercv_factorial) val(hypercv_factorial(k)); Buf z(n * 4); memcpy(z.p, q, n * 4); sort_array_down_float(z.as<float>(), n); z.done(); val(get_optimal_DFT_size(s)); }}; }
    case 18: { Dims d = size3(); int dt = gen_type(), il = gen_il(), z = (int)draw(2); Bytes x((size_t)d.s * d.l * d.b * esize(dt)); fill_bytes(x.data(), x.size()); void* p = arr(x); float* w = arr(floats(d.b, 0, 3)); return {"cubes from data", [=] { H m = create_hyper_mat_with_data(d.s, d.l, d.b, dt, ILS[il], p, z ? w : NULL); H o = DC(d, dt, il); hyper_mat_copy_wavelength(m, o); done(m); mix(o->wavelength, d.b * 4); delete_hyper_mat(o); }}; }
    case 0: { Dims2 d = gen_dims2(80, 14); int dt = pick({1, 12}); S m = create_simple_mat(d.r, d.c, dt, 1); fill_bytes(m->data, mat_elems(m) * esize(dt)); in(m); return {"DFT and back", [=] { S re = D(d.r, d.c, 4), im = D(d.r, d.c, 4), o = D(d.r, d.c, dt), g = D(d.r, d.c, 4); hypercv_dft(m, re, im); hypercv_magnitude(re, im, g); hypercv_idft(re, im, o); done(re); done(im); done(o); done(g); }}; }
    case 1: { Dims2 d = gen_dims2(80, 14); S m = gray(d); return {"hypercv_dft_frespectrum", [=] { S o = D(d.r, d.c); hypercv_dft_frespectrum(m, o); done(o); }}; }
    case 2: { Dims2 d = size2(); int ch = pick({1, 1, 3}), k = (int)range(1, 4), it = (int)range(0, 3); S m = gray(d, ch); return {"hypercv_k_means", [=] { POINT* v = points(k); hypercv_k_means(m, v, k, it); for (int i = 0; i < k; i++) { val(v[i].x); val(v[i].y); } vector_free(v); }}; }
    case 3: { Dims2 d = size2(); S m = gray(d); return {"HisEqualization", [=] { S o = D(d.r, d.c); HisEqualization(m, o); done(o); }}; }
    case 4: { Dims d = size3(); H m = fcube(d, 0, -5, 300); return {"hyper_mat_linear_tension", [=] { H o = DC(d, 1, 0); hyper_mat_linear_tension(m, o); done(o); }}; }
    case 5: { Dims2 d = size2(); bool u = chance(1, 2); int t = pick({1, 2, 4, 32}); S m = u ? gray(d) : fmat(d); return {"hypercv_normalize", [=] { S o = D(d.r, d.c, u ? 1 : 4); hypercv_normalize(m, o, 2, 1, t); done(o); }}; }
    case 6: { Dims2 d = size2(); S m = gray(d), n = gray(size2()); U8(m)[0] = 9; U8(n)[0] = 9; ts[ts.size() - 2].second[0] = ts[ts.size() - 1].second[0] = 9; return {"Hu moments and shape match", [=] { double h[7]; calc_hu_moment(h, m); mix(h, sizeof h); val(hypercv_match_shapes(m, n)); }}; }
    case 7: { int b = (int)range(1, 5); Dims d{(int)range(3, 8), (int)range(3, 8), b}; H m = fcube(d, 2); return {"hyper_mat_pca", [=] { H o = DC(d, 4, 2); hyper_mat_pca(m, o, 10); done(o); }}; }
    case 8: { int b = (int)range(1, 5); Dims d{(int)range(3, 8), (int)range(3, 8), b}; H m = fcube(d, 0, 0.1, 1); float* t = arr(floats(b, 0.1, 1)); return {"hyper_mat_cem", [=] { done(hyper_mat_cem(m, t)); }}; }
    case 9: { Dims d = size3(); H m = fcube(d, 2, 0, 1); float* t = arr(floats(d.b, 0.1, 1)); return {"spectrum_SAM_match, hyper_mat_mean", [=] { done(spectrum_SAM_match(m, t, 0.5)); S o = D(d.l, d.s, 4); hyper_mat_mean(m, o); done(o); }}; }
    case 10: { int n = dim(200); float *a = arr(floats(n, 0.1, 1)), *b = arr(floats(n, 0.1, 1)); return {"spectral angle and distance", [=] { val(spectral_angle_mapper(a, b, n)); val(euclidean_distance(a, b, n)); val(mean_float(a, n)); val(matrix_norm_float(a, n)); }}; }
    case 11: { int m = (int)range(1, 6); std::vector<float> f = floats(m * m); for (int i = 0; i < m; i++) f[i * m + i] += 12; float* a = arr(f); return {"inverse and QR", [=] { Buf s(m * m * 4), r(m * m * 4), q(m * m * 4), t(m * m * 4); memcpy(s.p, a, s.n); invert_matrix_float(r.as<float>(), s.as<float>(), m); matrix_QR_float(a, q.as<float>(), t.as<float>(), m); s.done(); r.done(); q.done(); t.done(); }}; }
    case 12: { int m = dim(12), k = dim(12), n = dim(12), f = (int)draw(8); static const int e[] = {1, 1, 2, 2, 4, 4, 4, 8}; Bytes x(m * k * e[f]), y(k * n * e[f]); if (f < 6) { fill_bytes(x.data(), x.size()); fill_bytes(y.data(), y.size()); } else if (f == 6) { auto u = floats(m * k), v = floats(k * n); memcpy(x.data(), u.data(), x.size()); memcpy(y.data(), v.data(), y.size()); }
      int es = e[f]; void *a = arr(x), *b = arr(y); return {"matrix product and transpose", [=] { Buf z((size_t)m * n * es), t((size_t)m * k * es); switch (f) {
#define MT(i, T, N) case i: MulMatrix_##N((T*)a, (T*)b, z.as<T>(), m, k, n); TransMatrix_##N((T*)a, t.as<T>(), m, k); break;
        MT(0, char, char) MT(1, unsigned char, uchar) MT(2, short, short) MT(3, unsigned short, ushort) MT(4, int, int) MT(5, unsigned, uint) MT(6, float, float) MT(7, double, double) } z.done(); t.done(); }}; }
    case 13: { bool db = chance(1, 2); return {"wavelet bases", [=] { if (!set_wavelet_base || !wavelet_base_free) return; wavelet_base* w = set_wavelet_base(db ? HYPERCV_WAVE_DB3 : HYPERCV_WAVE_BIOR3_7); val(w->len); for (double* f : {w->LO_D, w->HI_D, w->LO_R, w->HI_R}) mix(f, w->len * sizeof *f); wavelet_base_free(w); }}; }
    case 14: { double e[17] = {7e6 + unit() * 3e7, unit() * 0.3}; for (int i = 2; i < 6; i++) e[i] = unit() * 3; e[6] = unit() * 1e-9; e[7] = unit() * 1e-8; e[8] = (double)range(0, 600000); e[9] = e[8] + (double)range(-7200, 7200); for (int i = 10; i < 16; i++) e[i] = unit() * (i == 12 || i == 13 ? 300 : 1e-5); e[16] = unit() * 1e-8; std::vector<double> q(e, e + 17);
      return {"satellite position", [=] { sat_orbit o = hypercv_create_orbit(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15], q[16]); for (int k = 0; k < 2; k++) { ECEF p = get_satellite_position_ecef(o); val((double)p.ecefx); val((double)p.ecefy); val((double)p.ecefz); } free(o); }}; }
    default: { S m = gray(size2()); return {"cal_edge_signal_energy", [=] { if (cal_edge_signal_energy) val(cal_edge_signal_energy(m)); }}; }
  }
}
static Op files() {
  Dims d = size3(); int dt = gen_type(), il = gen_il();
  switch (nth(7)) {
    case 0: { H m = in(gen_cube(d, dt, il)); return {"hmsave and hmread_with_hdr", [=] { hmsave(lane("lk"), m); done(hmread_with_hdr(lane("lk"), lane("lk.hdr"))); }}; }
    case 1: { H m = in(gen_cube(d, dt, il)); return {"hmread_with_size", [=] { hmsave(lane("lk"), m); done(hmread_with_size(lane("lk"), d.s, d.l, d.b, dt, ILS[il])); }}; }
    case 2: { return {"hmread_with_hdr of missing files", [=] { unlink(lane("lk.none")); write_file(lane("lk.h"), "ENVI\n", 5); write_file(lane("lk.i"), "abc", 3); H a = hmread_with_hdr(lane("lk.none"), lane("lk.h")), b = hmread_with_hdr(lane("lk.i"), lane("lk.none")); val(a == NULL); val(b == NULL); if (a) delete_hyper_mat(a); if (b) delete_hyper_mat(b); }}; }
    case 3: { Dims2 s = size2(); int ch = pick({1, 3}); S m = gray(s, ch); return {"smwrite_bmp and smread_bmp", [=] { smwrite_bmp(lane("lk.bmp"), m); done(smread_bmp(lane("lk.bmp"))); }}; }
    case 4: { Dims2 s = size2(); int c = (int)range(1, 3); Bytes b((size_t)s.r * s.c * c * esize(dt)); fill_bytes(b.data(), b.size()); unsigned char* p = arr(b); size_t n = b.size(); return {"smread", [=] { write_file(lane("lk.raw"), p, n); done(smread(lane("lk.raw"), s.r, s.c, dt, c)); }}; }
    case 5: { int n = dim(60); std::string s; Bulk q = bulk(); char t[40]; int have = (int)range(0, n); for (int i = 0; i < have; i++) { snprintf(t, sizeof t, "%.4f\n", q.sym(10)); s += t; } size_t len = s.size(); char* p = arr(std::vector<char>(s.begin(), s.end())); return {"read_spectrum_file", [=] { write_file(lane("lk.txt"), p, len); float* f = read_spectrum_file(lane("lk.txt"), n); mix(f, n * 4); free(f); }}; }
    default: { H m = in(gen_cube(d, dt, il)); return {"hyper_mat_showinfo", [=] { hyper_mat_showinfo(m); hyper_mat_showinfo(NULL); val(hyper_mat_empty(m)); }}; }
  }
}
static Op cxx() {
  Dims d = size3(); int dt = gen_type(), il = gen_il(); Bytes q((size_t)d.s * d.l * d.b * esize(dt)); fill_bytes(q.data(), q.size()); unsigned char* p = arr(q); float* w = arr(floats(d.b, 0.3, 3));
  auto make = [=] { HyMat m(d.s, d.l, d.b, dt, il); m.CopyData(p); m.CopyWaveLength(w); return m; };
  switch (nth(6)) {
    case 0: return {"HyMat copy", [=] { HyMat m = make(); done(m.copy()); done(m); }};
    case 1: { int to = gen_il(); return {"HyMat convertTo", [=] { HyMat m = make(); m.convertTo(to); done(m); }}; }
    case 2: { int to = gen_il(); return {"HyMat bil2bsq and the like", [=] { HyMat m = make(); HyMat (*f[3][3])(HyMat&) = {{hypercv::bip2bsq, hypercv::bsq2bil, hypercv::bsq2bip}, {hypercv::bil2bsq, hypercv::bsq2bil, hypercv::bil2bip}, {hypercv::bip2bsq, hypercv::bip2bil, hypercv::bsq2bip}}; done(f[il][to](m)); done(m); }}; }
    case 3: { int a[3], b[3], len[3] = {d.l, d.s, d.b}; for (int i = 0; i < 3; i++) { a[i] = (int)draw(len[i]); b[i] = (int)range(a[i] + 1, len[i]); } int x = a[0], y = a[1], z = a[2], u = b[0], v = b[1], ww = b[2]; return {"HyMat range", [=] { HyMat m = make(); done(m.range(x, y, z, u, v, ww)); done(m); }}; }
    case 4: return {"HyMat save and hmread", [=] { HyMat m = make(); m.save(lane("lk.img")); done(hypercv::hmread(lane("lk.img"), lane("lk.hdr"))); done(hypercv::hmread(lane("lk.img"), d.s, d.l, d.b, dt, il)); done(m); unlink(lane("lk.img.aux.xml")); }};
    default: return {"HyMat create again", [=] { HyMat m = make(); m.create(); done(m); HyMat n; n.create(d.s, d.l, d.b, dt, il); n.create(d.b, d.s, d.l, dt, il); done(n); }};
  }
}
