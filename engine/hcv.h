// What the properties share: the library's headers, generators and references.
#pragma once
#include "pbt.h"
#include <assert.h>
#include <stddef.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#ifndef gdal_switch
#define gdal_switch 0
#endif
extern "C" {
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#include "algorithm/hypercv_algorithm.h"
#include "highgui/hypercv_gui.h"
}

// The library places an object's data inside a larger block, to align it. What lies around the data does
// not belong to the image (an image around the caller's memory has nothing there), so it is poisoned.
#if defined __SANITIZE_ADDRESS__ || defined __clang__
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_get_ownership(const volatile void*);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
static inline void poison_gap(char* a, char* b) { if (a < b) __asan_poison_memory_region(a, b - a); }
static inline char* up8(void* p) { return (char*)(((uintptr_t)p + 7) & ~(uintptr_t)7); }
static inline size_t tight_elem(int dt) { switch (dt) { case 1: return 1; case 2: case 12: return 2; case 3: case 4: case 13: return 4; default: return 8; } }
static inline simple_mat tight(simple_mat m) {
  if (!m || !m->data || !__sanitizer_get_ownership(m)) return m; char *b = (char*)m, *e = b + __sanitizer_get_allocated_size(m), *d = (char*)m->data; size_t n = (size_t)m->rows * m->cols * m->channels * tight_elem(m->data_type);
  if (d >= b + sizeof *m && d + n <= e) { poison_gap(up8(b + sizeof *m), d); poison_gap(d + n, e); } return m; }
static inline hyper_mat tight(hyper_mat m) {
  if (!m || !m->data || !m->wavelength || !__sanitizer_get_ownership(m)) return m; char *b = (char*)m, *e = b + __sanitizer_get_allocated_size(m), *d = (char*)m->data, *w = (char*)m->wavelength; size_t n = (size_t)m->samples * m->lines * m->bands * tight_elem(m->data_type), k = (size_t)m->bands * 4;
  if (d >= b + sizeof *m && d + n <= w && w + k <= e) { poison_gap(up8(b + sizeof *m), d); poison_gap(d + n, w); poison_gap(w + k, e); } return m; }
#define create_simple_mat(...) tight(create_simple_mat(__VA_ARGS__))
#define create_hyper_mat(...) tight(create_hyper_mat(__VA_ARGS__))
#define create_hyper_mat_with_data(...) tight(create_hyper_mat_with_data(__VA_ARGS__))
#endif

typedef std::vector<unsigned char> Bytes;
static const int ALL_TYPES[] = {1, 2, 3, 4, 5, 12, 13, 14, 15};
static const char* const ILS[] = {"bsq", "bil", "bip"};
static inline int gen_type() { return ALL_TYPES[draw(9)]; }
static inline int gen_il() { return (int)draw(3); }
static inline int esize(int dt) { switch (dt) { case 1: return 1; case 2: case 12: return 2; case 3: case 4: case 13: return 4; default: return 8; } }

// one case in g_huge is large: more than 65535 elements, sums beyond 2^24 and 2^31, one or all dimensions long
static int g_huge = 600, g_giant = 0;   // one in g_giant of these is giant: sums of pixels beyond 2^31
static inline bool huge_case(long cap) { return g_huge > 0 && cap >= 500 && draw(g_huge) == (uint64_t)g_huge - 1; }

// a size for three dimensions with a bounded product; any of them can be the long one
struct Dims { int s, l, b; };
static inline Dims gen_dims(long cap = 30000, int maxdim = 5000) {
  Dims d;
  if (huge_case(cap)) {
    int v[3], w = (int)draw(6); label("large: more than 65535 elements"); bool giant = g_giant && draw(g_giant) == (uint64_t)g_giant - 1; if (giant) label("giant: more than 4 million elements");
    if (giant) switch (draw(3)) { case 0: v[0] = (int)range(1400000, 2100000); v[1] = 3; v[2] = 1; break; case 1: v[0] = (int)range(1400, 2000); v[1] = (int)range(1500, 2000); v[2] = (int)range(2, 3); break; default: v[0] = v[1] = (int)range(160, 200); v[2] = (int)range(165, 200); }
    else switch (draw(3)) { case 0: v[0] = (int)range(65536, 70000); v[1] = (int)range(1, 3); v[2] = 1; break; case 1: v[1] = (int)range(330, 400); v[0] = chance(1, 3) ? v[1] : (int)range(200, 400); v[2] = (int)range(1, 3); break; default: v[0] = v[1] = (int)range(40, 60); v[2] = (int)range(42, 60); }
    d.s = v[w % 3]; d.l = v[(w + 1) % 3]; d.b = v[(w + 2) % 3]; if (w > 2) std::swap(d.s, d.l); return d;
  }
  int mode = weighted({5, 4, 3});
  if (mode == 0) { d.s = (int)range(1, 6); d.l = (int)range(1, 6); d.b = (int)range(1, 6); }
  else if (mode == 1) { d.s = dim(40); d.l = chance(1, 6) ? d.s : dim(40); d.b = chance(1, 8) ? d.l : dim(40); }
  else {
    int v[3]; int w = (int)draw(3);
    long big = dim(maxdim); v[0] = (int)big;
    v[1] = (int)std::max(1l, std::min((long)dim(300), cap / big));
    v[2] = (int)std::max(1l, std::min((long)dim(12), cap / (big * v[1])));
    d.s = v[w]; d.l = v[(w + 1) % 3]; d.b = v[(w + 2) % 3];
    if (chance(1, 2)) std::swap(d.l, d.b);
  }
  while ((long)d.s * d.l * d.b > cap) { if (d.s >= d.l && d.s >= d.b) d.s = (d.s + 1) / 2; else if (d.l >= d.b) d.l = (d.l + 1) / 2; else d.b = (d.b + 1) / 2; }
  label_if(d.s >= 100 || d.l >= 100 || d.b >= 100, "a dimension of 100 or more");
  label_if(d.s != d.l && d.l != d.b && d.s != d.b, "three different dimensions");
  label_if(d.s == 1 || d.l == 1 || d.b == 1, "a dimension of 1");
  return d;
}
struct Dims2 { int r, c; };
static inline Dims2 gen_dims2(long cap = 4000, int maxdim = 1100, int lo = 1) {
  Dims2 d;
  if (huge_case(cap)) { label("large: more than 65535 elements"); if (g_giant && draw(g_giant) == (uint64_t)g_giant - 1) { label("giant: more than 2^31/255 elements"); d.r = (int)range(2903, 3300); d.c = (int)range(2903, 3300); return d; } if (chance(1, 2)) { d.r = (int)range(256, 600); d.c = (int)range(256, 600); if (chance(1, 3)) { d.c = d.r; label("large square"); } } else { d.r = std::max(lo, (int)range(1, 4)); d.c = (int)range(65536, 70000); if (chance(1, 2)) std::swap(d.r, d.c); } return d; }
  int mode = weighted({5, 3, 2});
  if (mode == 0) { d.r = (int)range(lo, lo + 7); d.c = (int)range(lo, lo + 7); }
  else if (mode == 1) { d.r = std::max(lo, dim(64)); d.c = std::max(lo, chance(1, 6) ? d.r : dim(64)); }
  else { d.r = std::max(lo, dim(maxdim)); d.c = std::max(lo, (int)std::min((long)dim(70), std::max(1l, cap / d.r))); if (chance(1, 2)) std::swap(d.r, d.c); }
  while ((long)d.r * d.c > cap && (d.r > lo || d.c > lo)) { if (d.r >= d.c && d.r > lo) d.r = std::max(lo, (d.r + 1) / 2); else d.c = std::max(lo, (d.c + 1) / 2); }
  label_if(d.r != d.c, "not square");
  label_if(d.r == 1 || d.c == 1, "one row or column");
  label_if(d.r >= 100 || d.c >= 100, "100 or more rows or columns");
  return d;
}

// raw bytes: each element distinct enough that a misplaced one is seen
static inline void fill_bytes(void* p, size_t n) {
  unsigned char* q = (unsigned char*)p;
  int mode = weighted({6, 1, 1, 1});
  if (mode == 0) { Bulk b = bulk(); for (size_t i = 0; i < n; i += 8) { uint64_t v = b.next(); memcpy(q + i, &v, std::min<size_t>(8, n - i)); } }
  else if (mode == 1) { for (size_t i = 0; i < n; i++) q[i] = (unsigned char)(i % 251 + 1); }
  else if (mode == 2) { memset(q, 0xff, n); }
  else { Bulk b = bulk(); for (size_t i = 0; i < n; i++) q[i] = b.below(4) ? 0 : (unsigned char)b.next(); }
}
// 8-bit pixels: noise, few levels, extremes, ramps, sparse, constant
static inline const char* fill_u8(unsigned char* q, size_t n) {
  if (n <= 40 && chance(1, 2)) { for (size_t i = 0; i < n; i++) q[i] = (unsigned char)draw(256); return "each pixel drawn"; }
  int mode = weighted({6, 3, 2, 2, 2, 1, 2});
  Bulk b = bulk();
  switch (mode) {
    case 0: for (size_t i = 0; i < n; i++) q[i] = (unsigned char)b.next(); return "noise";
    case 1: { int lo = (int)draw(256), hi = (int)draw(256); for (size_t i = 0; i < n; i++) q[i] = b.below(2) ? lo : hi; return "two levels"; }
    case 2: for (size_t i = 0; i < n; i++) q[i] = b.below(2) ? 255 : 0; return "0/255";
    case 3: { int st = (int)range(1, 37); for (size_t i = 0; i < n; i++) q[i] = (unsigned char)(i * st); return "ramp"; }
    case 4: { int den = (int)range(2, 30); for (size_t i = 0; i < n; i++) q[i] = b.below(den) ? 0 : (unsigned char)b.next(); return "sparse"; }
    case 5: { int v = (int)draw(256); for (size_t i = 0; i < n; i++) q[i] = v; return "constant"; }
    default: { int v = (int)draw(256), w = (int)range(1, 12); for (size_t i = 0; i < n; i++) { int x = v + (int)b.below(2 * w + 1) - w; q[i] = x < 0 ? 0 : x > 255 ? 255 : x; } return "narrow"; }
  }
}

// ---- cubes -------------------------------------------------------------------
static inline size_t cube_bytes(hyper_mat m) { return (size_t)m->samples * m->lines * m->bands * esize(m->data_type); }
static inline Bytes snapshot(hyper_mat m) { Bytes v((unsigned char*)m->data, (unsigned char*)m->data + cube_bytes(m)); return v; }
static inline std::vector<float> waves(hyper_mat m) { return std::vector<float>(m->wavelength, m->wavelength + m->bands); }
static inline bool same_waves(const std::vector<float>& a, hyper_mat m) { return (int)a.size() == m->bands && memcmp(a.data(), m->wavelength, a.size() * 4) == 0; }
// offset of (line i, sample j, band k), from the definition of the three interleaves
static inline size_t off(int il, const Dims& d, int i, int j, int k) {
  switch (il) {
    case 0: return ((size_t)k * d.l + i) * d.s + j;
    case 1: return ((size_t)i * d.b + k) * d.s + j;
    default: return ((size_t)i * d.s + j) * d.b + k;
  }
}
static inline int il_of(hyper_mat m) { for (int i = 0; i < 3; i++) if (memcmp(m->interleave, ILS[i], 3) == 0) return i; return -1; }
static inline Dims dims_of(hyper_mat m) { return Dims{m->samples, m->lines, m->bands}; }
static inline const unsigned char* at(hyper_mat m, int i, int j, int k) { return (unsigned char*)m->data + off(il_of(m), dims_of(m), i, j, k) * esize(m->data_type); }
static inline void gen_wave_values(float* w, int n) {
  Bulk b = bulk(); int how = weighted({10, 4, 2, 2, 2, 2, 2, 1});
  for (int k = 0; k < n; k++) switch (how) {
    case 0: w[k] = (float)(0.3 + k * 0.01 + b.unit() * 0.009); break;                    // micrometres
    case 1: w[k] = (float)(400 + k * 2.5 + b.unit()); break;                             // nanometres
    case 2: w[k] = 0; break;
    case 3: w[k] = k == 0 || k == n / 2 ? 0 : (float)(0.5 + b.unit()); break;            // zeros among them
    case 4: w[k] = (float)(2500 - k * 1.5 - b.unit()); break;                            // falling
    case 5: w[k] = 550; break;
    case 6: w[k] = (float)b.below(3000); break;
    default: w[k] = (float)(b.sym(1) * pow(10, (double)b.below(7))); break;
  }
}
static inline void gen_waves(hyper_mat m) { gen_wave_values(m->wavelength, m->bands); }
static inline hyper_mat gen_cube(const Dims& d, int dt, int il) {
  hyper_mat m = create_hyper_mat(d.s, d.l, d.b, dt, ILS[il]);
  fill_bytes(m->data, cube_bytes(m));
  gen_waves(m);
  return m;
}
static inline void check_shape(hyper_mat m, const Dims& d, int dt, int il, const char* what) {
  REQUIRE(m != NULL, "%s: no cube", what);
  REQUIRE(m->samples == d.s && m->lines == d.l && m->bands == d.b, "%s: size %dx%dx%d instead of %dx%dx%d (samples x lines x bands)", what, m->samples, m->lines, m->bands, d.s, d.l, d.b);
  REQUIRE(m->data_type == dt, "%s: data type %d instead of %d", what, m->data_type, dt);
  REQUIRE(memcmp(m->interleave, ILS[il], 3) == 0, "%s: interleave %.3s instead of %s", what, m->interleave, ILS[il]);
}
// the cube m holds, at every position, the elements of ref laid out as ref_il
static inline void check_elements(hyper_mat m, const Bytes& ref, int ref_il, const char* what) {
  Dims d = dims_of(m); int e = esize(m->data_type), il = il_of(m);
  REQUIRE(il >= 0, "%s: unknown interleave", what);
  const unsigned char* p = (unsigned char*)m->data;
  for (int i = 0; i < d.l; i++) for (int j = 0; j < d.s; j++) for (int k = 0; k < d.b; k++)
    if (memcmp(p + off(il, d, i, j, k) * e, ref.data() + off(ref_il, d, i, j, k) * e, e))
      fail("%s: element at line %d sample %d band %d differs (%dx%dx%d type %d, %s -> %s)", what, i, j, k, d.s, d.l, d.b, m->data_type, ILS[ref_il], ILS[il]);
}

// ---- matrices -------------------------------------------------------------------
static inline size_t mat_elems(simple_mat m) { return (size_t)m->rows * m->cols * m->channels; }
static inline Bytes snapshot(simple_mat m) { return Bytes((unsigned char*)m->data, (unsigned char*)m->data + mat_elems(m) * esize(m->data_type)); }
static inline unsigned char* U8(simple_mat m) { return (unsigned char*)m->data; }
static inline float* F32(simple_mat m) { return (float*)m->data; }
static inline simple_mat new_u8(int r, int c, int ch, const char** how = NULL) {
  simple_mat m = create_simple_mat(r, c, 1, ch);
  const char* h = fill_u8(U8(m), mat_elems(m));
  if (how) *how = h;
  return m;
}
static inline simple_mat dirty(int r, int c, int dt, int ch) {   // a destination whose old content must not matter
  simple_mat m = create_simple_mat(r, c, dt, ch);
  memset(m->data, 0xA5, mat_elems(m) * esize(dt));
  return m;
}
static inline simple_mat mat_of(int r, int c, int dt, int ch, const void* p) {
  simple_mat m = create_simple_mat(r, c, dt, ch);
  memcpy(m->data, p, mat_elems(m) * esize(dt));
  return m;
}
static inline bool unchanged(const Bytes& b, simple_mat m) { return b.size() == mat_elems(m) * esize(m->data_type) && memcmp(b.data(), m->data, b.size()) == 0; }
static inline bool unchanged(const Bytes& b, hyper_mat m) { return b.size() == cube_bytes(m) && memcmp(b.data(), m->data, b.size()) == 0; }
static inline bool near(double a, double b, double rel, double abs_) { if (a == b) return true; return fabs(a - b) <= abs_ + rel * std::max(fabs(a), fabs(b)); }
static inline int clamp255(int v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
// border index by definition
static inline int border_ref(int p, int len, int type) {
  if (p >= 0 && p < len) return p;
  switch (type) {
    case 1: return p < 0 ? 0 : len - 1;
    case 3: { int m = p % len; return m < 0 ? m + len : m; }
    case 2: { int per = 2 * len, m = p % per; if (m < 0) m += per; return m < len ? m : per - 1 - m; }
    default: { if (len == 1) return 0; int per = 2 * len - 2, m = p % per; if (m < 0) m += per; return m < len ? m : per - m; }
  }
}
static inline int gen_border() { return (int)range(1, 4); }
static inline std::string dump(const unsigned char* p, size_t n) { std::string s; char b[8]; for (size_t i = 0; i < n && i < 48; i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", p[i]); s += b; } if (n > 48) s += ",.."; return s; }
static inline std::string dumpf(const float* p, size_t n) { std::string s; char b[32]; for (size_t i = 0; i < n && i < 24; i++) { snprintf(b, sizeof b, "%s%g", i ? "," : "", p[i]); s += b; } if (n > 24) s += ",.."; return s; }
// the file by another path: a directory with a dot in its name, the current one, an absolute path, a long one, one with format letters
static inline std::string any_path(const std::string& base, int longest = 3500) {
  switch (weighted({6, 1, 1, 1, 1, 1})) {
    case 1: mkdir("sub.d", 0755); label("path with a dot in a directory"); return "sub.d/" + base.substr(base.rfind('/') + 1);
    case 2: { char c[2048]; if (!getcwd(c, sizeof c)) return base; label("absolute path"); return std::string(c) + "/" + base; }
    case 3: { std::string p; int n = (int)range(1, chance(1, 2) ? 200 : longest / 2); while (n--) p += "./"; label_if(p.size() > 256, "path of more than 256 characters"); return p + base; }
    case 4: { size_t k = base.rfind('/'); k = k == std::string::npos ? 0 : k + 1; label("format letters in the path"); return base.substr(0, k) + "50%s%n%d" + base.substr(k); }
    case 5: mkdir("sub.d", 0755); return "sub.d/../" + base;
    default: return base;
  }
}
static inline void write_file(const char* path, const void* p, size_t n) { FILE* f = fopen(path, "wb"); if (!f) { perror(path); _exit(96); } if (n) fwrite(p, 1, n, f); fclose(f); }
static inline Bytes read_file(const char* path) { Bytes b; FILE* f = fopen(path, "rb"); if (!f) return b; unsigned char t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }
