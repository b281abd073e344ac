// C28: the C++ cube, as a history of operations against a model

#include <iostream>
#include <fstream>
#include <sstream>
#include "envi.h"
#include "cxx_include/hypercv_core.hpp"
using hypercv::HyMat;
struct Obj { HyMat* m; Dims d; int dt, il; Bytes data; std::vector<float> w; };
static void check(Obj& o, const char* op) {
  HyMat& m = *o.m;
  REQUIRE(m.samples == o.d.s && m.lines == o.d.l && m.bands == o.d.b && m.dataType == o.dt, "%s: a cube is %dx%dx%d type %d instead of %dx%dx%d type %d", op, m.samples, m.lines, m.bands, m.dataType, o.d.s, o.d.l, o.d.b, o.dt);
  if (o.d.s == 0) { REQUIRE(m.empty() == 1, "%s: a cube without data is not empty", op); return; }
  REQUIRE(m.empty() == 0, "%s: a cube with data is empty", op);
  REQUIRE(m.format == o.il && memcmp(m.interleave, ILS[o.il], 3) == 0, "%s: layout %d (%.3s) instead of %s", op, m.format, m.interleave, ILS[o.il]);
  REQUIRE(m.elemSize == esize(o.dt) && m.dataSize == (long)o.data.size(), "%s: element size %d, data size %ld instead of %d and %zu", op, m.elemSize, m.dataSize, esize(o.dt), o.data.size());
  if (memcmp(m.data, o.data.data(), o.data.size())) { size_t i = 0; while (((unsigned char*)m.data)[i] == o.data[i]) i++; fail("%s: element %zu of a %dx%dx%d cube of type %d in %s is not the expected one", op, i / esize(o.dt), o.d.s, o.d.l, o.d.b, o.dt, ILS[o.il]); }
  REQUIRE(m.wavelength && memcmp(m.wavelength, o.w.data(), o.w.size() * 4) == 0, "%s: wavelengths differ", op);
}
static Bytes relay(const Bytes& a, const Dims& d, int e, int from, int to) {
  Bytes r(a.size()); for (int i = 0; i < d.l; i++) for (int j = 0; j < d.s; j++) for (int k = 0; k < d.b; k++) memcpy(&r[off(to, d, i, j, k) * e], &a[off(from, d, i, j, k) * e], e); return r;
}
static std::vector<float> six(const std::vector<float>& w, bool cxx) { (void)cxx; std::vector<float> r(w); char b[64]; for (auto& x : r) { snprintf(b, sizeof b, "%f", x); x = (float)atof(b); } return r; }
static Obj fresh(long cap) { Obj o; o.d = gen_dims(cap, 400); o.dt = gen_type(); o.il = gen_il(); o.data.assign((size_t)o.d.s * o.d.l * o.d.b * esize(o.dt), 0); o.w.assign(o.d.b, 0.f); o.m = NULL; return o; }
static void body() {
  g_huge = 4000;
  std::vector<Obj> os; int steps = (int)range(3, 16), interesting = 0;
  for (int t = 0; t < steps; t++) {
    char op[200] = "?"; int what = weighted({3, 2, 2, 3, 3, 4, 3, 3, 1, 1, 2});
    if (os.empty() && what > 2) what = (int)draw(3);
    Obj* p = os.empty() ? NULL : &os[draw(os.size())];
    bool has = p && p->d.s > 0;
    switch (what) {
      case 0: { Obj o = fresh(1500); o.m = chance(1, 2) ? new HyMat(o.d.s, o.d.l, o.d.b, o.dt, o.il) : new HyMat();
        if (o.m->data == NULL) { REQUIRE(o.m->empty() == 1, "a cube without size is not empty"); o.m->create(o.d.s, o.d.l, o.d.b, o.dt, o.il); }
        { int g = hypercv::dataType2GDALDataType(o.dt), want = o.dt == 1 ? GDT_Byte : o.dt == 2 ? GDT_Int16 : o.dt == 3 ? GDT_Int32 : o.dt == 4 ? GDT_Float32 : o.dt == 5 ? GDT_Float64 : o.dt == 12 ? GDT_UInt16 : o.dt == 13 ? GDT_UInt32 : g; REQUIRE(g == want, "type %d is given to GDAL as %s", o.dt, GDALGetDataTypeName((GDALDataType)g)); }
        snprintf(op, sizeof op, "new %dx%dx%d type %d %s", o.d.s, o.d.l, o.d.b, o.dt, ILS[o.il]); os.push_back(o); break; }
      case 1: { Obj o = fresh(1500); void* u = malloc(o.data.size()); fill_bytes(u, o.data.size()); o.data.assign((unsigned char*)u, (unsigned char*)u + o.data.size()); float* w = NULL; bool hw = chance(1, 2);
        if (hw) { w = (float*)malloc(o.d.b * 4); gen_wave_values(w, o.d.b); std::copy(w, w + o.d.b, o.w.begin()); }
        o.m = hw ? new HyMat(o.d.s, o.d.l, o.d.b, o.dt, o.il, u, w) : new HyMat(o.d.s, o.d.l, o.d.b, o.dt, o.il, u);
        REQUIRE(o.m->data == u, "a cube around the caller's data does not use it"); snprintf(op, sizeof op, "around data, %dx%dx%d type %d %s", o.d.s, o.d.l, o.d.b, o.dt, ILS[o.il]); os.push_back(o); break; }
      case 2: { Obj o; o.d = Dims{0, 0, 0}; o.dt = 0; o.il = 0; o.m = new HyMat(); snprintf(op, sizeof op, "empty"); os.push_back(o); break; }
      case 3: { if (!has) break; // write into it
        int how = (int)draw(3); Bytes n(p->data.size()); fill_bytes(n.data(), n.size());
        if (how == 0) { p->m->CopyData(n.data()); p->data = n; }
        else if (how == 1) { long part = (long)range(1, (int64_t)n.size()); p->m->CopyData(n.data(), part); std::copy(n.begin(), n.begin() + part, p->data.begin()); }
        else { size_t i = draw(n.size()); ((unsigned char*)p->m->data)[i] = p->data[i] = n[i]; }
        if (chance(1, 2)) { std::vector<float> w(p->d.b); gen_wave_values(w.data(), p->d.b); long cnt = chance(1, 2) ? 0 : (long)range(1, p->d.b); p->m->CopyWaveLength(w.data(), cnt); std::copy(w.begin(), w.begin() + (cnt ? cnt : p->d.b), p->w.begin()); }
        if (chance(1, 6)) { p->m->CopyData(NULL); p->m->CopyWaveLength(NULL); }
        snprintf(op, sizeof op, "write (%d)", how); break; }
      case 4: { Obj o = *p; o.m = new HyMat(p->m->copy()); if (has) { REQUIRE(o.m->data != p->m->data && o.m->wavelength != p->m->wavelength, "a copy shares its memory with the original"); interesting++; } snprintf(op, sizeof op, "copy"); os.push_back(o); break; }
      case 5: { if (!has) break; int to = gen_il(); snprintf(op, sizeof op, "convertTo %s -> %s of %dx%dx%d type %d", ILS[p->il], ILS[to], p->d.s, p->d.l, p->d.b, p->dt); p->m->convertTo(to); p->data = relay(p->data, p->d, esize(p->dt), p->il, to); interesting += to != p->il; p->il = to; break; }
      case 6: { if (!has) break; Obj o = *p; int to = gen_il();    // what bil2bsq and bil2bip make of another layout is C30's
        HyMat (*f[3][3])(HyMat&) = {{hypercv::bip2bsq, hypercv::bsq2bil, hypercv::bsq2bip}, {hypercv::bil2bsq, chance(1, 2) ? hypercv::bsq2bil : hypercv::bip2bil, hypercv::bil2bip}, {hypercv::bip2bsq, hypercv::bip2bil, hypercv::bsq2bip}};
        snprintf(op, sizeof op, "%s2%s of %dx%dx%d type %d", ILS[p->il], ILS[to], p->d.s, p->d.l, p->d.b, p->dt); o.m = new HyMat(f[p->il][to](*p->m)); REQUIRE(o.m->data != p->m->data, "a converted cube shares its memory"); o.data = relay(p->data, p->d, esize(p->dt), p->il, to); interesting += to != p->il; o.il = to; os.push_back(o); break; }
      case 7: { if (!has) break; Obj o = *p; const Dims& d = p->d; int j0 = (int)draw(d.s), j1 = (int)range(j0 + 1, d.s), i0 = (int)draw(d.l), i1 = (int)range(i0 + 1, d.l), k0 = (int)draw(d.b), k1 = (int)range(k0 + 1, d.b);
        snprintf(op, sizeof op, "lines %d-%d samples %d-%d bands %d-%d of %dx%dx%d type %d %s", i0, i1, j0, j1, k0, k1, d.s, d.l, d.b, p->dt, ILS[p->il]);
        o.m = new HyMat(p->m->range(i0, j0, k0, i1, j1, k1)); o.d = Dims{j1 - j0, i1 - i0, k1 - k0}; int e = esize(o.dt); o.data.assign((size_t)o.d.s * o.d.l * o.d.b * e, 0);
        for (int i = i0; i < i1; i++) for (int j = j0; j < j1; j++) for (int k = k0; k < k1; k++) memcpy(&o.data[off(o.il, o.d, i - i0, j - j0, k - k0) * e], &p->data[off(p->il, d, i, j, k) * e], e);
        o.w.assign(p->w.begin() + k0, p->w.begin() + k1); interesting += i0 || j0 || k0; os.push_back(o); break; }
      case 8: { if (!has && chance(1, 2)) { Exit e = observe([&] { p->m->save("nothing"); p->m->convertTo(gen_il()); p->m->CopyData(NULL, 5); }); REQUIRE(!e.exited && access("nothing", F_OK) != 0, "saving an empty cube ends the program or makes a file"); label("saving an empty cube"); snprintf(op, sizeof op, "save an empty cube"); break; }
        p->m->release(); p->d = Dims{0, 0, 0}; p->dt = 0; p->data.clear(); p->w.clear(); snprintf(op, sizeof op, "release"); break; }
      case 9: { if (has && chance(1, 2)) { p->m->create(); std::fill(p->data.begin(), p->data.end(), 0); std::fill(p->w.begin(), p->w.end(), 0.f); snprintf(op, sizeof op, "create again"); }
        else { Obj o = fresh(1500); p->m->create(o.d.s, o.d.l, o.d.b, o.dt, o.il); o.m = p->m; *p = o; snprintf(op, sizeof op, "create in place"); } break; }
      case 10: { if (!has) break; Obj o = *p; std::string path = any_path(pick({"c.img", "d", "./e.dat", "f.g.raw"}), 1200); const char* name = path.c_str(); std::string hdr(path); size_t dot = hdr.find_last_of("./"); hdr = (dot == std::string::npos || hdr[dot] == '/' ? hdr : hdr.substr(0, dot)) + ".hdr";
        int how = (int)draw(4); snprintf(op, sizeof op, "save as %s, read back (%d), %dx%dx%d type %d %s", name, how, p->d.s, p->d.l, p->d.b, p->dt, ILS[p->il]);
        if (how == 3) {     // written by the C interface
          hyper_mat c = create_hyper_mat_with_data(p->d.s, p->d.l, p->d.b, p->dt, ILS[p->il], p->data.data(), p->w.data()); hmsave(name, c); delete_hyper_mat(c); hdr = std::string(name) + ".hdr"; label("C to C++");
        } else { p->m->save(name); check(*p, "save"); REQUIRE(read_file(name) == p->data, "the saved file does not hold exactly the elements (%s)", op); if (chance(1, 3) && p->data.size() <= 20000 && p->d.b <= 400) { envi_check(name, p->d, p->dt, p->il, p->data, p->w, 2e-6, "cube saved from C++"); label("read by GDAL"); } }
        o.w = six(p->w, true);
        bool inplace = how != 2 && chance(1, 3); size_t keep = o.data.size(), e = esize(o.dt); Obj* q = NULL;
        if (how != 2 && chance(1, 4)) { keep = chance(1, 4) ? 0 : (size_t)range(0, (int64_t)keep); if (keep || chance(1, 2)) write_file(name, o.data.data(), keep); else unlink(name); std::fill(o.data.begin() + keep, o.data.end(), 0); label("file shorter than the cube, or missing"); }
        if (inplace) { q = &os[draw(os.size())]; o.m = q->m; label("read into a cube there is"); if (how == 1) { o.m->open(name, o.d.s, o.d.l, o.d.b, o.dt, o.il); o.w.assign(o.d.b, 0.f); } else o.m->open(name, hdr.c_str()); }
        else if (how == 0 || how == 3) o.m = new HyMat(hypercv::hmread(name, hdr.c_str()));
        else if (how == 1) { o.m = new HyMat(hypercv::hmread(name, o.d.s, o.d.l, o.d.b, o.dt, o.il)); o.w.assign(o.d.b, 0.f); }
        else { hyper_mat c = hmread_with_hdr(name, hdr.c_str()); check_shape(c, o.d, o.dt, o.il, op); REQUIRE(unchanged(p->data, c), "%s by the C interface: elements differ", op); for (int k = 0; k < o.d.b; k++) REQUIRE(near(c->wavelength[k], o.w[k], 3e-7, 0), "%s by the C interface: wavelength %d is %g instead of %g", op, k, c->wavelength[k], o.w[k]); delete_hyper_mat(c); label("C++ to C"); unlink(name); unlink(hdr.c_str()); interesting++; break; }
        REQUIRE(o.m->wavelength, "%s: no wavelengths", op); for (int k = 0; k < o.d.b; k++) { REQUIRE(near(o.m->wavelength[k], o.w[k], 3e-7, 0), "%s: wavelength %d is %g instead of %g", op, k, o.m->wavelength[k], o.w[k]); o.w[k] = o.m->wavelength[k]; }
        unlink(name); unlink(hdr.c_str()); unlink((std::string(name) + ".aux.xml").c_str()); label("saved and read"); interesting++;
        if (keep % e && o.m->data) { size_t z = keep / e * e; memcpy(&o.data[z], (unsigned char*)o.m->data + z, e); }     // of an element cut in two nothing is promised
        if (inplace) *q = o; else os.push_back(o); break; }
    }
    describe("%s", op);
    for (auto& o : os) check(o, op);
    if (os.size() > 6) { Obj& o = os[draw(os.size())]; o.m->release(); REQUIRE(o.m->empty() == 1 && o.m->samples == 0 && o.m->lines == 0 && o.m->bands == 0, "a released cube is not empty"); delete o.m; std::swap(o, os.back()); os.pop_back(); }
  }
  for (auto& o : os) { o.m->release(); delete o.m; }
  nontrivial(interesting >= 2);
}
namespace pbt { Property property_under_test = {"C28",
  "histories of 3 to 16 operations on C++ cubes (construct, adopt data, write, copy, convert in place and by function, sub-cube, release, create again, save and read through either interface), every cube compared with a model after every step; non-trivial: two or more conversions, copies, sub-cubes off the origin or file round trips",
  60000, 360000, 100, body, {"GDAL can create ENVI files in the working directory", "wavelengths keep six decimals in a header", "data handed to a cube belongs to it"}}; }
