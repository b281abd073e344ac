// C05: the containers, as a history of operations against a model
#include "hcv.h"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static const volatile void* g_freed[16]; static int g_nfreed;
static void on_malloc(const volatile void*, size_t) {}
static void on_free(const volatile void* p) { g_freed[g_nfreed++ & 15] = p; }
static bool freed(void* p) { for (auto f : g_freed) if (f == p) return true; return false; }
struct Cube { hyper_mat m; Dims d; int dt, il; Bytes data; std::vector<float> w; };
struct Img { simple_mat m; int r, c, dt, ch; Bytes data; bool owned; };
static void check(const Cube& c, const char* op) {
  check_shape(c.m, c.d, c.dt, c.il, op);
  REQUIRE(c.data.size() == cube_bytes(c.m) && memcmp(c.data.data(), c.m->data, c.data.size()) == 0, "%s: a cube's elements are not what was written to them", op);
  REQUIRE(memcmp(c.w.data(), c.m->wavelength, c.w.size() * 4) == 0, "%s: a cube's wavelengths are not what was written to them", op);
  REQUIRE(((uintptr_t)c.m->data & 63) == 0 && ((uintptr_t)c.m->wavelength & 63) == 0, "%s: cube data not aligned to 64 bytes", op);
  REQUIRE(hyper_mat_empty(c.m) == 0, "%s: a cube is reported empty", op);
}
static void check(const Img& i, const char* op) {
  REQUIRE(i.m && i.m->rows == i.r && i.m->cols == i.c && i.m->data_type == i.dt && i.m->channels == i.ch && i.m->elem_size == esize(i.dt), "%s: an image's size or type is wrong", op);
  REQUIRE(unchanged(i.data, i.m), "%s: an image's pixels are not what was written to them", op);
  if (i.owned) REQUIRE(((uintptr_t)i.m->data & 63) == 0, "%s: image data not aligned to 64 bytes", op);
}
// what showing a cube prints: every number of it, in order
static void shown(const Cube& c) {
  static hyper_mat m; m = c.m; Exit e = observe([] { hyper_mat_showinfo(m); }); REQUIRE(!e.exited, "showing a cube ended the program");
  char want[80]; const char* p = e.out.c_str(); int v[4] = {c.d.s, c.d.l, c.d.b, c.dt}; const char* n[4] = {"samples", "lines", "bands", "data type"};
  for (int i = 0; i < 4; i++) { const char* q = strstr(p, n[i]); REQUIRE(q, "the %s are not shown", n[i]); q += strcspn(q, "0123456789\n"); REQUIRE(atoi(q) == v[i], "%s shown as %d instead of %d", n[i], atoi(q), v[i]); }
  const char* q = strstr(p, "interleave"); REQUIRE(q && strstr(q, ILS[c.il]), "the interleave is not shown as %s", ILS[c.il]);
  q = strstr(p, "wavelength"); REQUIRE(q, "the wavelengths are not shown");
  for (int k = 0; k < c.d.b && e.out.size() < 60000; k++) { snprintf(want, sizeof want, "%f", c.w[k]); q = strstr(q, want); REQUIRE(q, "wavelength %d (%s) is not shown in its place", k, want); q += strlen(want); }
}
static void body() {
  g_huge = 4000;
  static bool hooked = false; if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
  std::vector<Cube> cs; std::vector<Img> is;
  int steps = (int)range(3, 24); int copies = 0, dels = 0, writes = 0;
  REQUIRE(hyper_mat_empty(NULL) == 1, "no cube is not reported empty");
  for (int t = 0; t < steps; t++) {
    char op[160] = "?";
    switch (weighted({3, 2, 3, 2, 2, 3, 2, 2, 3, 2, 4, 3, 1, 1})) {
      case 0: {   // new zero cube
        Cube c; c.d = gen_dims(chance(1, 20) ? 200000 : 1500, 700); c.dt = gen_type(); c.il = gen_il();
        c.m = create_hyper_mat(c.d.s, c.d.l, c.d.b, c.dt, ILS[c.il]);
        c.data.assign((size_t)c.d.s * c.d.l * c.d.b * esize(c.dt), 0); c.w.assign(c.d.b, 0.f);
        snprintf(op, sizeof op, "new cube %dx%dx%d type %d", c.d.s, c.d.l, c.d.b, c.dt); cs.push_back(c); break; }
      case 1: {   // cube from data
        Cube c; c.d = gen_dims(1500, 700); c.dt = gen_type(); c.il = gen_il();
        c.data.resize((size_t)c.d.s * c.d.l * c.d.b * esize(c.dt)); fill_bytes(c.data.data(), c.data.size());
        c.w.assign(c.d.b, 0.f); bool hw = chance(1, 2), hd = chance(4, 5);
        if (hw) gen_wave_values(c.w.data(), c.d.b);
        if (!hd) std::fill(c.data.begin(), c.data.end(), 0);
        Bytes user(c.data); std::vector<float> uw(c.w);
        c.m = create_hyper_mat_with_data(c.d.s, c.d.l, c.d.b, c.dt, ILS[c.il], hd ? user.data() : NULL, hw ? uw.data() : NULL);
        REQUIRE(user == c.data && uw == c.w, "creating a cube from data changed the data");
        std::fill(user.begin(), user.end(), 0x66);
        snprintf(op, sizeof op, "cube %dx%dx%d type %d from data%s", c.d.s, c.d.l, c.d.b, c.dt, hw ? " and wavelengths" : ""); cs.push_back(c); break; }
      case 2: {   // new zero image
        Img i; Dims2 d = gen_dims2(2000, 1100); if (chance(1, 300)) { d.r = (int)range(1, 2); d.c = (int)range(65536, 80000); if (chance(1, 2)) std::swap(d.r, d.c); label("an image 65536 long"); } i.r = d.r; i.c = d.c; i.dt = gen_type(); i.ch = (int)range(1, chance(1, 8) ? 12 : 4); i.owned = true;
        i.m = create_simple_mat(i.r, i.c, i.dt, i.ch); i.data.assign((size_t)i.r * i.c * i.ch * esize(i.dt), 0);
        snprintf(op, sizeof op, "new image %dx%dx%d type %d", i.r, i.c, i.ch, i.dt); is.push_back(i); break; }
      case 3: {   // image around the caller's memory
        Img i; Dims2 d = gen_dims2(2000, 1100); if (chance(1, 300)) { d.r = (int)range(1, 2); d.c = (int)range(65536, 80000); if (chance(1, 2)) std::swap(d.r, d.c); label("an image 65536 long"); } i.r = d.r; i.c = d.c; i.dt = gen_type(); i.ch = (int)range(1, chance(1, 8) ? 12 : 4); i.owned = false;
        size_t n = (size_t)i.r * i.c * i.ch * esize(i.dt); void* u = malloc(n); fill_bytes(u, n); i.data.assign((unsigned char*)u, (unsigned char*)u + n);
        i.m = create_simple_mat_with_data(i.r, i.c, i.dt, i.ch, u);
        REQUIRE(i.m->data == u, "an image around the caller's memory does not use it");
        snprintf(op, sizeof op, "image %dx%dx%d type %d around memory", i.r, i.c, i.ch, i.dt); is.push_back(i); break; }
      case 4: if (!cs.empty()) {   // copy cube
        Cube c = cs[draw(cs.size())]; hyper_mat o = c.m; c.m = hyper_mat_copy(o); REQUIRE(c.m && c.m != o && c.m->data != o->data, "copy shares with its source");
        snprintf(op, sizeof op, "copy of a cube"); cs.push_back(c); copies++; } break;
      case 5: if (!is.empty()) {
        Img i = is[draw(is.size())]; simple_mat o = i.m; i.m = simple_mat_copy(o); i.owned = true; REQUIRE(i.m && i.m != o && i.m->data != o->data, "copy shares with its source");
        snprintf(op, sizeof op, "copy of an image"); is.push_back(i); copies++; } break;
      case 6: if (!cs.empty()) {   // copy into a cube of the same size
        Cube& a = cs[draw(cs.size())]; Cube c = a; c.il = gen_il(); c.m = create_hyper_mat(c.d.s, c.d.l, c.d.b, c.dt, ILS[c.il]);
        hyper_mat_copy_to(a.m, c.m); c.il = a.il; snprintf(op, sizeof op, "copy into another cube"); cs.push_back(c); copies++; } break;
      case 7: if (!cs.empty()) {   // copy wavelengths
        Cube& a = cs[draw(cs.size())]; Cube c; c.d = Dims{(int)range(1, 5), (int)range(1, 5), a.d.b}; c.dt = gen_type(); c.il = gen_il();
        c.m = gen_cube(c.d, c.dt, c.il); c.data = snapshot(c.m); c.w = a.w;
        hyper_mat_copy_wavelength(a.m, c.m); snprintf(op, sizeof op, "copy of the wavelengths"); cs.push_back(c); } break;
      case 8: if (!cs.empty()) {   // write
        Cube& c = cs[draw(cs.size())]; size_t p = draw(c.data.size()); unsigned char v = (unsigned char)draw(256);
        ((unsigned char*)c.m->data)[p] = v; c.data[p] = v; int k = (int)draw(c.d.b); float f = (float)draw(1000); c.m->wavelength[k] = f; c.w[k] = f;
        snprintf(op, sizeof op, "write to a cube"); writes++; } break;
      case 9: if (!is.empty()) {
        Img& i = is[draw(is.size())]; size_t p = draw(i.data.size()); unsigned char v = (unsigned char)draw(256); ((unsigned char*)i.m->data)[p] = v; i.data[p] = v;
        snprintf(op, sizeof op, "write to an image"); writes++; } break;
      case 10: if (!cs.empty()) {
        size_t k = draw(cs.size()); void* m = cs[k].m; memset(g_freed, 0, sizeof g_freed); delete_hyper_mat(cs[k].m); REQUIRE(freed(m), "a deleted cube is still allocated"); cs.erase(cs.begin() + k); snprintf(op, sizeof op, "delete a cube"); dels++; } break;
      case 11: if (!is.empty()) {
        size_t k = draw(is.size()); void* m = is[k].m; void* u = is[k].owned ? NULL : is[k].m->data; memset(g_freed, 0, sizeof g_freed); delete_simple_mat(is[k].m); 
        REQUIRE(freed(m), "a deleted image is still allocated");
        if (u) REQUIRE(freed(u), "the memory given to a deleted image is still allocated");
        is.erase(is.begin() + k);
        snprintf(op, sizeof op, "delete an image"); dels++; } break;
      case 12: if (!cs.empty()) { shown(cs[draw(cs.size())]); label("shown");
        Exit e = observe([] { hyper_mat_showinfo(NULL); }); REQUIRE(!e.exited && e.out.find("NULL") != std::string::npos, "no cube is not shown as NULL"); snprintf(op, sizeof op, "show a cube"); } break;
      default: {
        int w = dim(40), h = dim(40); S_2D s = create_2D_struct(w, h); REQUIRE(s && s->width == w && s->height == h, "structuring element has size %dx%d", s->width, s->height);
        for (int i = 0; i < w * h; i++) REQUIRE(((unsigned char*)s->data)[i] == 1, "new structuring element is not all ones");
        delete_S_2D(s);
        delete_hyper_mat(NULL); delete_simple_mat(NULL); delete_S_2D(NULL);
        snprintf(op, sizeof op, "structuring element %dx%d", w, h); break; }
    }
    describe("%s", op);
    for (auto& c : cs) check(c, op);
    for (auto& i : is) check(i, op);
  }
  label_if(copies && writes, "write after copy"); label_if(dels > 1, "two or more deletions");
  nontrivial(copies && (writes || dels));
  for (auto& c : cs) delete_hyper_mat(c.m);
  for (auto& i : is) delete_simple_mat(i.m);
}
namespace pbt { Property property_under_test = {"C05",
  "a history of 3..24 operations over cubes and images (create empty / from data / around memory, copy, copy into, copy wavelengths, write an element, show, delete) against a model; every live object is compared with the model after every step; non-trivial: a copy and then a write or a deletion",
  48000, 288000, 50, body, {"memory handed to an image comes from malloc"}}; }
