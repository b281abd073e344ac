// C19: exact matrix and vector arithmetic
#include "hcv.h"
#include <limits>
#include <type_traits>
extern "C" { long hypercv_factorial(int) __attribute__((weak)); }
template <class T> static void fill(std::vector<T>& v, double amp) { if (v.size() <= 12) { for (T& x : v) x = (T)(std::is_floating_point<T>::value ? (double)range(-20, 20) / 4 * (amp > 100 ? 100 : 1) : (double)range(std::is_signed<T>::value ? -9 : 0, 19) * (amp > 100 ? amp / 20 : 1)); return; } Bulk b = bulk(); for (T& x : v) x = (T)(std::is_signed<T>::value ? b.sym(amp) : b.unit() * amp); }
template <class T> static bool same(double e, double scale, int n, T g) { if (std::is_floating_point<T>::value) return near((double)g, e, 0, (sizeof(T) == 4 ? 2e-7 : 1e-15) * (n + 2) * scale + 1e-30); return false; }
template <class T> static void product(const char* tn, void (*mul)(T*, T*, T*, int, int, int), void (*corr)(T*, T*, T*, int, int, int)) {
  int m = (int)range(1, chance(1, 5) ? 20 : 5), k = (int)range(1, chance(1, 5) ? 40 : 5), n = (int)range(1, chance(1, 5) ? 20 : 5); if (chance(1, 100)) { int* big = pick({&m, &k, &n}); *big = (int)range(100, chance(1, 4) ? 1200 : 300); label("a side of 100 or more"); } bool c = corr && chance(1, 3);
  double amp = std::is_floating_point<T>::value ? pick({1.0, 1000.0}) : c ? (sizeof(T) == 1 ? 1.8 : sizeof(T) == 2 ? 28 : 7000) : sizeof(T) == 1 ? 100.0 : sizeof(T) == 2 ? 30000.0 : 7000.0;
  std::vector<T> x((size_t)m * k), y((size_t)k * n), z((size_t)m * n, (T)77); 
  if (c && x.size() + y.size() > 0) { Bulk b = bulk(); for (T& v : x) v = (T)(std::is_signed<T>::value ? b.sym(amp) : b.unit() * amp); for (T& v : y) v = (T)(std::is_signed<T>::value ? b.sym(amp) : b.unit() * amp); } else { fill(x, amp); fill(y, amp); }
  std::vector<T> x0(x), y0(y); describe("%s of %dx%d and %dx%d %s", c ? "correlation" : "product", m, k, k, n, tn);
  if (c) corr(z.data(), x.data(), y.data(), m, k, n); else mul(x.data(), y.data(), z.data(), m, k, n);
  REQUIRE(x == x0 && y == y0, "a factor changed");
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    T g = z[i * n + j];
    if (std::is_floating_point<T>::value) { double s = 0, a = 0; for (int q = 0; q < k; q++) { double t = (double)x[i * k + q] * (double)y[q * n + j]; s += t; a += fabs(t); } if (c) { s /= k; a /= k; } REQUIRE(same<T>(s, a, k, g), "%s: entry (%d,%d) is %.9g instead of %.9g", tn, i, j, (double)g, s); }
    else { uint64_t s = 0; for (int q = 0; q < k; q++) s += (uint64_t)((int64_t)x[i * k + q] * (int64_t)y[q * n + j]); T e = (T)s; if (c) e = std::is_signed<T>::value ? (T)((int64_t)s / k) : (T)((T)s / k); REQUIRE(g == e, "%s: entry (%d,%d) of a %s of %dx%dx%d is %lld instead of %lld", tn, i, j, c ? "correlation" : "product", m, k, n, (long long)g, (long long)e); }
  }
  label(c ? "correlation" : "product"); nontrivial(m * k * n > 3);
}
template <class T> static void transposed(const char* tn, void (*tr)(T*, T*, int, int)) {
  Dims2 d = gen_dims2(900, 400); std::vector<T> x((size_t)d.r * d.c), z(x.size(), (T)77); fill_bytes(x.data(), x.size() * sizeof(T)); Bytes xb((unsigned char*)x.data(), (unsigned char*)(x.data() + x.size()));
  describe("transpose of %dx%d %s", d.r, d.c, tn); tr(x.data(), z.data(), d.r, d.c);
  REQUIRE(memcmp(xb.data(), x.data(), xb.size()) == 0, "the source changed");
  for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) REQUIRE(memcmp(&z[(size_t)j * d.r + i], &xb[((size_t)i * d.c + j) * sizeof(T)], sizeof(T)) == 0, "%s: entry (%d,%d) of a %dx%d matrix is not at (%d,%d)", tn, i, j, d.r, d.c, j, i);
  label("transpose"); nontrivial(d.r > 1 && d.c > 1);
}
template <class T, class R> static void average(const char* tn, R (*f)(T*, int), double amp) {
  int n = chance(1, 500) ? (int)range(65536, 90000) : chance(1, 500) ? (int)range(100000, 400000) : draw(10000) == 9999 ? (int)range(8500000, 9500000) : dim(chance(1, 10) ? 5000 : 300); std::vector<T> x(n); fill(x, amp); if (!std::is_floating_point<T>::value && chance(1, 4)) for (T& v : x) if (chance(1, 2) || n > 60) v = std::numeric_limits<T>::max();
  std::vector<T> x0(x); describe("mean of %d %s", n, tn); double s = 0, a = 0; for (T v : x) { s += (double)v; a += fabs((double)v); }
  R g = f(x.data(), n); REQUIRE(x == x0, "the vector changed");
  REQUIRE(near((double)g, s / n, 0, (sizeof(R) == 4 ? 1.5e-7 : 3e-16 * (n + 2)) * (a / n) + 1e-30), "mean of %d %s is %.9g instead of %.9g", n, tn, (double)g, s / n); label("mean"); nontrivial(n > 1);
}
static void vectors() {
  switch (draw(5)) {
    case 0: { int n = chance(1, 8) ? (int)range(0, 2) : chance(1, 50) ? (int)range(400, 2500) : dim(400); std::vector<float> x(n), y; int lv = (int)range(1, 60); for (float& v : x) v = n <= 12 ? (float)range(-5, 5) : 0; if (n > 12) { Bulk b = bulk(); for (float& v : x) v = chance(0, 1) ? 0 : (float)((double)b.below(lv) - lv / 2) * 0.37f; } int shape = (int)draw(3); if (shape == 1) std::sort(x.begin(), x.end()); if (shape == 2) std::sort(x.begin(), x.end(), std::greater<float>());
      y = x; describe("sort %d: %s", n, dumpf(x.data(), n).c_str()); sort_array_down_float(x.data(), n); std::sort(y.begin(), y.end(), std::greater<float>()); REQUIRE(x == y, "the sorted array is %s instead of %s", dumpf(x.data(), n).c_str(), dumpf(y.data(), n).c_str()); label("sort"); nontrivial(n > 2); break; }
    case 1: { int n = chance(1, 50) ? (int)range(200, 70000) : dim(200); std::vector<float> x(n); fill(x, 100); if (chance(1, 4)) { float sc = (float)pow(10, (double)range(-18, 15)); for (float& v : x) v *= sc; } double s = 0; for (float v : x) s += (double)v * v; float g = matrix_norm_float(x.data(), n); describe("norm of %d", n); REQUIRE(near(g, sqrt(s), 1e-6, 1e-40), "norm %.9g instead of %.9g", g, sqrt(s)); label("norm"); nontrivial(n > 1); break; }
    case 2: { int m = (int)range(2, 12), n = (int)range(1, 12), a = (int)draw(m), b = (int)draw(m); if (a == b) b = (a + 1) % m; std::vector<float> x((size_t)m * n); fill(x, 9); std::vector<float> y(x); for (int j = 0; j < n; j++) std::swap(y[a * n + j], y[b * n + j]); describe("swap rows %d and %d of %dx%d", a, b, m, n); swap_rows_float(x.data(), m, n, a, b); REQUIRE(x == y, "rows are not swapped"); label("swap rows"); nontrivial(m > 2); break; }
    case 3: { int m = (int)range(1, 30); std::vector<float> x((size_t)m * m, 7); describe("identity %d", m); set_identity_matrix_float(x.data(), m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) REQUIRE(x[i * m + j] == (i == j), "identity entry (%d,%d) is %g", i, j, x[i * m + j]); label("identity"); nontrivial(m > 1); break; }
    default: { int n = (int)range(-2, 20); if (!hypercv_factorial) discard(); long e = 1; for (int i = 2; i <= n; i++) e *= i; if (n < 0) e = -1; describe("%d!", n); long g = hypercv_factorial(n); REQUIRE(g == e, "%d! is %ld instead of %ld", n, g, e); label("factorial"); nontrivial(n > 1); }
  }
}
static void images() {
  if (chance(1, 4)) { Dims2 d = gen_dims2(1500, 700); simple_mat m = create_simple_mat(d.r, d.c, 4, 1), o = dirty(d.r, d.c, 4, 1); Bulk b = bulk(); for (size_t i = 0; i < mat_elems(m); i++) F32(m)[i] = (float)pow(10, b.sym(6)); Bytes s = snapshot(m); describe("log of %dx%d", d.r, d.c); simple_mat_log(m, o); REQUIRE(unchanged(s, m), "log changed its input"); for (size_t i = 0; i < mat_elems(m); i++) REQUIRE(near(F32(o)[i], log((double)F32(m)[i]), 3e-7, 3e-7), "log of %g is %g", F32(m)[i], F32(o)[i]); delete_simple_mat(m); delete_simple_mat(o); label("logarithm"); nontrivial(d.r * d.c > 1); return; }
  bool fl = chance(1, 3); int ch = (int)range(1, 3), dt = fl ? 4 : 1; Dims2 a = gen_dims2(700, 300), b = chance(1, 2) ? a : gen_dims2(700, 300); int r = std::min(a.r, b.r), c = std::min(a.c, b.c), R = r + (int)draw(3), C = c + (int)draw(3);
  simple_mat x, y, o = dirty(R, C, dt, ch);
  if (fl) { x = create_simple_mat(a.r, a.c, 4, ch); y = create_simple_mat(b.r, b.c, 4, ch); Bulk q = bulk(); for (size_t i = 0; i < mat_elems(x); i++) F32(x)[i] = (float)q.sym(1000); for (size_t i = 0; i < mat_elems(y); i++) F32(y)[i] = (float)q.sym(1000); } else { x = new_u8(a.r, a.c, ch); y = new_u8(b.r, b.c, ch); }
  Bytes xs = snapshot(x), ys = snapshot(y), os = snapshot(o); describe("%s sum of %dx%d and %dx%d with %d channels into %dx%d", fl ? "float" : "8-bit", a.r, a.c, b.r, b.c, ch, R, C);
  if (fl) simple_mat_addition_float(x, y, o); else simple_mat_addition_uchar(x, y, o);
  REQUIRE(unchanged(xs, x) && unchanged(ys, y), "a summand changed");
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int k = 0; k < ch; k++) {
    size_t p = ((size_t)i * C + j) * ch + k, u = ((size_t)i * a.c + j) * ch + k, v = ((size_t)i * b.c + j) * ch + k; bool in = i < r && j < c; int e = esize(dt);
    if (!in) REQUIRE(memcmp(&os[p * e], (char*)o->data + p * e, e) == 0, "the sum writes (%d,%d), outside the %dx%d both images cover", i, j, r, c);
    else if (fl) REQUIRE(F32(o)[p] == F32(x)[u] + F32(y)[v], "sum at (%d,%d) channel %d is %g", i, j, k, F32(o)[p]);
    else REQUIRE(U8(o)[p] == (unsigned char)(xs[u] + ys[v]), "sum of %d and %d at (%d,%d) channel %d is %d", xs[u], ys[v], i, j, k, U8(o)[p]);
  }
  delete_simple_mat(x); delete_simple_mat(y); delete_simple_mat(o); label("image sum"); label_if(a.r != b.r || a.c != b.c, "images of different size"); nontrivial(r * c > 1);
}
static void body() {
  switch (weighted({5, 3, 3, 3, 3})) {
    case 0: switch (draw(8)) { case 0: product<char>("char", MulMatrix_char, correlation_matrix_char); break; case 1: product<unsigned char>("uchar", MulMatrix_uchar, correlation_matrix_uchar); break; case 2: product<short>("short", MulMatrix_short, correlation_matrix_short); break; case 3: product<unsigned short>("ushort", MulMatrix_ushort, correlation_matrix_ushort); break; case 4: product<int>("int", MulMatrix_int, correlation_matrix_int); break; case 5: product<unsigned>("uint", MulMatrix_uint, correlation_matrix_uint); break; case 6: product<double>("double", MulMatrix_double, NULL); break; default: product<float>("float", MulMatrix_float, correlation_matrix_float); } break;
    case 1: switch (draw(8)) { case 0: transposed<char>("char", TransMatrix_char); break; case 1: transposed<unsigned char>("uchar", TransMatrix_uchar); break; case 2: transposed<short>("short", TransMatrix_short); break; case 3: transposed<unsigned short>("ushort", TransMatrix_ushort); break; case 4: transposed<int>("int", TransMatrix_int); break; case 5: transposed<unsigned>("uint", TransMatrix_uint); break; case 6: transposed<double>("double", TransMatrix_double); break; default: transposed<float>("float", TransMatrix_float); } break;
    case 2: switch (draw(8)) { case 0: average<char, float>("char", mean_char, 127); break; case 1: average<unsigned char, float>("uchar", mean_uchar, 255); break; case 2: average<short, float>("short", mean_short, 32767); break; case 3: average<unsigned short, float>("ushort", mean_ushort, 65535); break; case 4: average<int, float>("int", mean_int, 2e9); break; case 5: average<unsigned, float>("uint", mean_uint, 4e9); break; case 6: average<double, double>("double", mean_double, 1e6); break; default: average<float, float>("float", mean_float, 1e4); } break;
    case 3: vectors(); break; default: images();
  }
}
namespace pbt { Property property_under_test = {"C19",
  "products, correlations and transposes of drawn shape in each of eight element types, means, descending sorts, norms, row swaps, identities, factorials, image sums of equal and different sizes and logarithms against their definitions (integers exactly, modulo the width of the type); non-trivial: more than one element",
  800000, 4800000, 500, body, {"32-bit integers do not overflow"}}; }
