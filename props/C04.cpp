// C04: parts of cubes
#include "hcv.h"
static void sub_cube() {
  g_giant = 12; Dims d = gen_dims(chance(1, 25) ? 150000 : 6000, chance(1, 25) ? 66000 : 2000); int dt = gen_type(), il = gen_il();
  hyper_mat m = gen_cube(d, dt, il);
  Bytes src = snapshot(m); std::vector<float> w = waves(m);
  auto pair = [](int n, int& a, int& b) { if (chance(1, 4)) { a = 0; b = n; } else { a = (int)range(0, n - 1); b = (int)range(a + 1, n); } };
  int r0, r1, c0, c1, b0, b1; pair(d.l, r0, r1); pair(d.s, c0, c1); pair(d.b, b0, b1);
  describe("range lines %d..%d samples %d..%d bands %d..%d of %dx%dx%d type %d %s", r0, r1, c0, c1, b0, b1, d.s, d.l, d.b, dt, ILS[il]);
  hyper_mat r = hyper_mat_get_range(m, r0, c0, b0, r1, c1, b1);
  Dims e{c1 - c0, r1 - r0, b1 - b0};
  check_shape(r, e, dt, il, "sub-cube"); check_shape(m, d, dt, il, "source");
  REQUIRE(unchanged(src, m) && same_waves(w, m), "taking a sub-cube changed the source");
  REQUIRE(r->data != m->data, "sub-cube shares data");
  for (int i = 0; i < e.l; i++) for (int j = 0; j < e.s; j++) for (int k = 0; k < e.b; k++)
    if (memcmp(at(r, i, j, k), at(m, i + r0, j + c0, k + b0), esize(dt))) fail("sub-cube element line %d sample %d band %d is not the source's %d,%d,%d", i, j, k, i + r0, j + c0, k + b0);
  for (int k = 0; k < e.b; k++) REQUIRE(memcmp(&r->wavelength[k], &w[k + b0], 4) == 0, "wavelength of band %d of the sub-cube is %g, not band %d's %g", k, r->wavelength[k], k + b0, w[k + b0]);
  delete_hyper_mat(r); delete_hyper_mat(m);
  label("sub-cube"); label_if(r0 && c0 && b0, "sub-cube with three offsets");
  nontrivial(r0 + c0 + b0 > 0);
}
static void bands() {
  g_giant = 12; Dims d = gen_dims(chance(1, 25) ? 150000 : 6000, 2000); int dt = gen_type();
  hyper_mat m = gen_cube(d, dt, 0);
  Bytes model = snapshot(m); std::vector<float> w = waves(m);
  size_t plane = (size_t)d.s * d.l * esize(dt);
  int steps = (int)range(1, 6);
  describe("cube %dx%dx%d type %d", d.s, d.l, d.b, dt);
  bool put = false;
  for (int t = 0; t < steps; t++) {
    int band = (int)range(1, d.b);
    if (chance(1, 2)) {
      simple_mat s = create_simple_mat(d.l, d.s, dt, 1); memset(s->data, 0x3c, plane);
      hyper_mat_2_simple_mat(m, s, band);
      describe("take band %d", band);
      REQUIRE(s->rows == d.l && s->cols == d.s && s->data_type == dt, "band image has size %dx%d type %d", s->rows, s->cols, s->data_type);
      REQUIRE(memcmp(s->data, model.data() + plane * (band - 1), plane) == 0, "image of band %d of %d differs from the band", band, d.b);
      delete_simple_mat(s);
    } else {
      simple_mat s = create_simple_mat(d.l, d.s, dt, 1); fill_bytes(s->data, plane);
      Bytes sb = snapshot(s);
      describe("put band %d", band);
      simple_mat_2_hyper_mat(m, s, band);
      memcpy(model.data() + plane * (band - 1), sb.data(), plane);
      REQUIRE(unchanged(sb, s), "putting a band changed the image");
      delete_simple_mat(s); put = true;
    }
    check_shape(m, d, dt, 0, "cube"); REQUIRE(same_waves(w, m), "wavelengths changed");
    REQUIRE(unchanged(model, m), "after the step the cube differs from the model (band %d of %d)", band, d.b);
  }
  label("band exchange");
  nontrivial(put && d.b > 1);
  delete_hyper_mat(m);
}
static void splice() {
  Dims d = gen_dims(5000, 1500); int dt = gen_type(), il = gen_il();
  hyper_mat m = gen_cube(d, dt, il); Bytes model = snapshot(m); std::vector<float> w = waves(m);
  long total = (long)d.s * d.l * d.b;
  Dims p{(int)range(1, d.s), (int)range(1, d.l), (int)range(1, d.b)};
  hyper_mat part = gen_cube(p, dt, il); Bytes pb = snapshot(part);
  long n = (long)p.s * p.l * p.b, start = range(0, total - n);
  if (chance(1, 5)) start = total - n;
  describe("splice %ld elements at %ld of %ld, type %d", n, start, total, dt);
  hyper_mat_splicing(m, part, (int)start);
  memcpy(model.data() + start * esize(dt), pb.data(), pb.size());
  REQUIRE(unchanged(pb, part), "splicing changed the part");
  check_shape(m, d, dt, il, "cube"); REQUIRE(unchanged(model, m) && same_waves(w, m), "splicing %ld elements at %ld of %ld: cube differs from the model", n, start, total);
  label("splicing"); nontrivial(start > 0);
  delete_hyper_mat(m); delete_hyper_mat(part);
}
static void reshape() {
  Dims d = gen_dims(5000, 1500); int dt = gen_type(), il = gen_il();
  hyper_mat m = gen_cube(d, dt, il); Bytes src = snapshot(m);
  long total = (long)d.s * d.l * d.b; std::vector<int> divs; for (int i = 1; i <= total; i++) if (total % i == 0) divs.push_back(i);
  int r = pick(divs), c = (int)(total / r);
  describe("reshape %dx%dx%d to %dx%d type %d", d.s, d.l, d.b, r, c, dt);
  simple_mat s = reshape_hypermat_2_simplemat(m, r, c);
  REQUIRE(s && s->rows == r && s->cols == c && s->data_type == dt && s->channels == 1 && s->elem_size == esize(dt), "reshaped image has the wrong size or type");
  REQUIRE(memcmp(s->data, src.data(), src.size()) == 0, "reshaping changed the element order");
  memset(s->data, 0x11, src.size()); REQUIRE(unchanged(src, m), "reshaped image shares the cube's data");
  delete_simple_mat(s); delete_hyper_mat(m); label("reshape"); nontrivial(r > 1 && c > 1);
}
static void transposes() {
  if (chance(1, 2)) {
    Dims2 d = gen_dims2(5000, 2000); int dt = gen_type(), e = esize(dt);
    simple_mat s = create_simple_mat(d.r, d.c, dt, 1); fill_bytes(s->data, mat_elems(s) * e); Bytes sb = snapshot(s);
    simple_mat t = dirty(d.c, d.r, dt, 1);
    describe("transpose %dx%d type %d", d.r, d.c, dt);
    simple_mat_transport(t, s);
    REQUIRE(unchanged(sb, s), "transposing changed the source");
    REQUIRE(t->rows == d.c && t->cols == d.r && t->data_type == dt, "transposed image changed its size");
    for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++)
      if (memcmp((char*)t->data + ((size_t)j * d.r + i) * e, sb.data() + ((size_t)i * d.c + j) * e, e)) fail("element (%d,%d) of a %dx%d image is not at (%d,%d) of the transposed image (type %d)", i, j, d.r, d.c, j, i, dt);
    delete_simple_mat(s); delete_simple_mat(t); label("image transpose"); nontrivial(d.r > 1 && d.c > 1);
  } else {
    Dims d = gen_dims(5000, 1500); int dt = gen_type(), e = esize(dt);
    hyper_mat m = gen_cube(d, dt, 0); Bytes src = snapshot(m);
    Dims q{d.l, d.s, d.b};
    hyper_mat t = create_hyper_mat(q.s, q.l, q.b, dt, "bsq"); memset(t->data, 0xA5, cube_bytes(t));
    describe("transpose the bands of %dx%dx%d type %d", d.s, d.l, d.b, dt);
    hyper_mat_transport(t, m);
    check_shape(t, q, dt, 0, "transposed cube"); REQUIRE(unchanged(src, m), "transposing changed the source");
    for (int k = 0; k < d.b; k++) for (int i = 0; i < d.l; i++) for (int j = 0; j < d.s; j++)
      if (memcmp(at(t, j, i, k), at(m, i, j, k), e)) fail("element line %d sample %d band %d is not at line %d sample %d of the transposed cube", i, j, k, j, i);
    delete_hyper_mat(m); delete_hyper_mat(t); label("cube transpose"); nontrivial(d.s > 1 && d.l > 1);
  }
}
static void body() { g_huge = 600; g_giant = 0; switch (weighted({4, 4, 2, 1, 2})) { case 0: sub_cube(); break; case 1: bands(); break; case 2: splice(); break; case 3: reshape(); break; default: transposes(); } }
namespace pbt { Property property_under_test = {"C04",
  "drawn cubes of every type and layout; a drawn range, a history of band extractions and insertions against a model, a splice at a drawn position, a reshape to a drawn shape, an image or cube transpose, all compared element by element; non-trivial: an offset range, an insertion into one of several bands, a splice past the start, a shape or image with more than one row and column",
  240000, 1440000, 100, body, {"the cube whose bands are exchanged is BSQ, as the functions require"}}; }
