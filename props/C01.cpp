// C01: interleave conversion
#include "hcv.h"
typedef hyper_mat (*Conv)(hyper_mat);
typedef void (*InPlace)(hyper_mat);
static Conv conv(int from, int to, int any) {
  static Conv t[3][3] = {{NULL, bsq2bil, bsq2bip}, {bil2bsq, NULL, bil2bip}, {bip2bsq, bip2bil, NULL}};
  if (from == to) { static Conv same[3][2] = {{bil2bsq, bip2bsq}, {bsq2bil, bip2bil}, {bsq2bip, bil2bip}}; return same[to][any & 1]; }
  return t[from][to];
}
static InPlace inplace[3] = {convert2bsq, convert2bil, convert2bip};

static void body() {
  g_giant = 10; bool big = chance(1, 25);
  Dims d = gen_dims(big ? 300000 : 12000, big ? 70000 : 5000);
  label_if((long)d.s * d.l * d.b > 65536, "more than 65536 elements");
  int dt = gen_type(), il = gen_il();
  hyper_mat m = gen_cube(d, dt, il);
  if (chance(1, 4)) fill_bytes(m->wavelength, d.b * 4);
  Bytes first = snapshot(m);
  std::vector<float> w = waves(m);
  int first_il = il;
  int steps = (int)range(1, 5);
  describe("%dx%dx%d type %d %s", d.s, d.l, d.b, dt, ILS[il]);
  label(dt == 1 ? "type 1" : dt == 2 || dt == 12 ? "16 bit" : esize(dt) == 4 ? "32 bit" : "64 bit");
  bool changed = false;
  for (int t = 0; t < steps; t++) {
    int to = gen_il();
    if (chance(1, 2)) {
      label("in place");
      describe("in place to %s", ILS[to]);
      hyper_mat before = m; void* data = m->data;
      inplace[to](m);
      REQUIRE(m == before && m->data == data, "in place conversion moved the data");
    } else {
      label(to == il ? "already in the target layout" : "new cube");
      describe("new cube %s", ILS[to]);
      Bytes src = snapshot(m);
      hyper_mat r = conv(il, to, (int)draw(2))(m);
      REQUIRE(r != NULL && r != m && r->data != m->data, "conversion to %s shares its result with the source", ILS[to]);
      check_shape(m, d, dt, il, "source after a conversion");
      REQUIRE(unchanged(src, m), "conversion to %s changed its source", ILS[to]);
      REQUIRE(same_waves(w, m), "conversion to %s changed the wavelengths of its source", ILS[to]);
      if (chance(1, 4)) { delete_hyper_mat(m); m = r; }
      else { memset(m->data, 0x5c, cube_bytes(m)); memset(m->wavelength, 0x5c, 4 * d.b); delete_hyper_mat(m); m = r; }
    }
    changed |= to != il;
    il = to;
    check_shape(m, d, dt, il, "converted cube");
    REQUIRE(same_waves(w, m), "conversion to %s lost the wavelengths", ILS[to]);
    check_elements(m, first, first_il, "conversion");
  }
  nontrivial(changed && d.b > 1 && (d.s > 1 || d.l > 1));
  delete_hyper_mat(m);
}
namespace pbt { Property property_under_test = {"C01",
  "a cube of drawn size (each dimension 1..5000, some cubes over 65536 elements), element type, layout, bit patterns and wavelengths, put through 1..5 conversions (new cube or in place, any target); non-trivial: some conversion changes the layout, several bands and several pixels",
  120000, 720000, 100, body, {"sizes up to 300000 elements"}}; }
