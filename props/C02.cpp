// C02: cubes and images written to files come back
#include "envi.h"
static const char* const NAMES[] = {"a", "cube.img", "scene.2020.05.raw", "sub/c", "./x.hdr", "UPPER", "sp ace.dat", "noext_but_a_rather_long_name_of_a_file_0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"};

static void cube() {
  g_huge = 400; g_giant = 14; Dims d = gen_dims(chance(1, 25) ? 120000 : 8000, 3000);
  int dt = gen_type(), il = gen_il();
  hyper_mat m = gen_cube(d, dt, il);
  int wm = weighted({4, 2, 2, 1, 1});
  Bulk b = bulk();
  for (int k = 0; k < d.b; k++) switch (wm) {
    case 0: break;
    case 1: m->wavelength[k] = (float)(350 + k * 2.5 + b.unit()); break;
    case 2: m->wavelength[k] = (float)b.below(3000); break;
    case 3: m->wavelength[k] = 0; break;
    default: m->wavelength[k] = (float)(b.sym(1) * pow(10, (double)b.below(7))); break;
  }
  Bytes src = snapshot(m);
  std::vector<float> w = waves(m);
  mkdir("sub", 0755);
  std::string name = any_path(NAMES[draw(8)]), hdr = name + ".hdr";
  describe("cube %dx%dx%d type %d %s saved as %s%.30s (%zu characters), wavelengths kind %d", d.s, d.l, d.b, dt, ILS[il], name.size() > 30 ? "..." : "", name.c_str() + (name.size() > 30 ? name.size() - 30 : 0), name.size(), wm);
  if (chance(1, 3)) {   // something longer was there before
    Bytes old(src.size() + 100, 0x77); write_file(name.c_str(), old.data(), old.size());
    std::string h(70000, 'x'); write_file(hdr.c_str(), h.data(), chance(1, 2) ? h.size() : 10);
    label("overwrites older files");
  }
  hmsave(name.c_str(), m);
  check_shape(m, d, dt, il, "saved cube"); REQUIRE(unchanged(src, m) && same_waves(w, m), "saving changed the cube");
  REQUIRE(read_file(name.c_str()) == src, "the image file does not hold exactly the elements of the cube");
  label_if(d.b >= 900, "wavelength line over 9000 characters");

  if (chance(1, 6) && d.s * d.l * d.b <= 4000 && d.b <= 400) {   // what another program makes of it
    hmsave("envi", m); envi_check("envi", d, dt, il, src, w, 2e-6, "saved cube"); label("read by GDAL");
    if (chance(1, 3)) {   // a header without wavelengths
      writehdr("envi", d.s, d.l, d.b, dt, ILS[il], NULL); envi_check("envi", d, dt, il, src, {}, 0, "cube with a header without wavelengths"); label("header without wavelengths");
      hyper_mat q = hmread_with_hdr("envi", "envi.hdr"); check_shape(q, d, dt, il, "cube with a header without wavelengths"); REQUIRE(unchanged(src, q), "cube with a header without wavelengths: elements differ");
      for (int k = 0; k < d.b; k++) REQUIRE(q->wavelength[k] == 0, "wavelength %d is %g without one in the header", k, q->wavelength[k]); delete_hyper_mat(q);
    }
    unlink("envi"); unlink("envi.hdr");
  }
  hyper_mat r = hmread_with_hdr(name.c_str(), hdr.c_str());
  check_shape(r, d, dt, il, "cube read with its header");
  REQUIRE(unchanged(src, r), "cube read with its header: elements differ");
  for (int k = 0; k < d.b; k++)
    REQUIRE(near(r->wavelength[k], w[k], 2e-7, 1e-6), "wavelength %d of %d: %.9g came back as %.9g", k, d.b, w[k], r->wavelength[k]);
  if (chance(1, 3)) {   // a second generation is exact
    hmsave("again", r);
    hyper_mat q = hmread_with_hdr("again", "again.hdr");
    check_shape(q, d, dt, il, "cube read after a second save"); REQUIRE(unchanged(src, q), "second save changed elements");
    for (int k = 0; k < d.b; k++) REQUIRE(near(q->wavelength[k], w[k], 4e-7, 2e-6), "wavelength %d drifts: %.9g to %.9g", k, w[k], q->wavelength[k]);
    delete_hyper_mat(q);
  }
  delete_hyper_mat(r);

  int cut = weighted({3, 2, 1});
  size_t keep = src.size();
  if (cut == 2) {   // the file goes on behind the cube
    keep += (size_t)(chance(1, 2) ? range(1, 60) : range(1, 3) * (int64_t)src.size()); Bytes more = src; more.resize(keep); fill_bytes(more.data() + src.size(), keep - src.size()); write_file(name.c_str(), more.data(), keep);
    label("file longer than the cube");
  }
  if (cut == 1) {
    keep = chance(1, 6) ? 0 : (size_t)range(0, (int64_t)src.size());
    write_file(name.c_str(), src.data(), keep);
    label("file shorter than the cube");
  }
  size_t full = std::min(keep, src.size()) / esize(dt) * esize(dt);
  bool with_hdr = chance(1, 2);
  r = with_hdr ? hmread_with_hdr(name.c_str(), hdr.c_str()) : hmread_with_size(name.c_str(), d.s, d.l, d.b, dt, ILS[il]);
  describe("%zu of %zu bytes left, read with %s", keep, src.size(), with_hdr ? "header" : "size");
  check_shape(r, d, dt, il, with_hdr ? "second read" : "cube read with a size");
  REQUIRE(memcmp(r->data, src.data(), full) == 0, "elements in the file differ");
  const unsigned char* p = (unsigned char*)r->data;
  size_t tail = (keep + esize(dt) - 1) / esize(dt) * esize(dt);
  for (size_t i = tail; i < src.size(); i++) REQUIRE(p[i] == 0, "element %zu, beyond the end of the file, is not zero", i / esize(dt));
  if (!with_hdr) for (int k = 0; k < d.b; k++) REQUIRE(r->wavelength[k] == 0, "wavelength %d is %g without a header", k, r->wavelength[k]);
  delete_hyper_mat(r); delete_hyper_mat(m);
  unlink(name.c_str()); unlink(hdr.c_str());
  nontrivial(d.b > 1 && d.s * d.l > 1);
}

static void image() {
  Dims2 d = gen_dims2(6000, 2000);
  int dt = gen_type(), ch = chance(1, 10) ? (int)range(5, 20) : (int)pick({1, 3, 2, 4}); if (chance(1, 300)) { d.r = (int)range(65536, 80000); d.c = 1; if (chance(1, 2)) std::swap(d.r, d.c); }
  size_t n = (size_t)d.r * d.c * ch * esize(dt);
  Bytes f(n + (chance(1, 3) ? range(1, 50) : 0)); fill_bytes(f.data(), f.size());
  size_t keep = chance(1, 4) ? (size_t)range(0, (int64_t)n) : f.size();
  std::string path = any_path("im"); write_file(path.c_str(), f.data(), keep);
  describe("image %dx%d, %d channels, type %d, %zu of %zu bytes", d.r, d.c, ch, dt, keep, n);
  label(keep < n ? "image file shorter than the image" : keep > n ? "image file longer than the image" : "image file of the exact size");
  simple_mat m = smread(path.c_str(), d.r, d.c, dt, ch);
  REQUIRE(m && m->rows == d.r && m->cols == d.c && m->channels == ch && m->data_type == dt && m->elem_size == esize(dt), "wrong image size or type");
  size_t full = std::min(n, keep) / esize(dt) * esize(dt), tail = (std::min(n, keep) + esize(dt) - 1) / esize(dt) * esize(dt);
  REQUIRE(memcmp(m->data, f.data(), full) == 0, "pixels differ from the file");
  for (size_t i = tail; i < n; i++) REQUIRE(((unsigned char*)m->data)[i] == 0, "pixel beyond the end of the file is not zero");
  delete_simple_mat(m); unlink(path.c_str());
  nontrivial(d.r * d.c > 1);
}
static void body() { g_huge = 600; g_giant = 0; if (chance(1, 5)) image(); else cube(); }
namespace pbt { Property property_under_test = {"C02",
  "a cube of drawn size, type, layout, bits and wavelengths saved under a drawn name (old files of other lengths in place), read back with its header and, from a file cut at a drawn byte, with header or explicit size; one in six of the small ones is also read by GDAL's ENVI driver, and with a header without wavelengths; every fifth case a raw image read from a file of drawn length; non-trivial: several bands and pixels",
  36000, 216000, 100, body, {"regular files on a local file system; wavelengths are kept to six decimals, as the header stores them"}}; }
