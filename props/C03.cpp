// C03: headers written by other software
#include <iostream>
#include <fstream>
#include <sstream>
#include "hcv.h"
#include "cxx_include/hypercv_core.hpp"
static std::string num(double v) {
  char b[64];
  switch (draw(5)) {
    case 0: snprintf(b, sizeof b, "%.6f", v); break;
    case 1: snprintf(b, sizeof b, "%g", v); break;
    case 2: snprintf(b, sizeof b, "%.4e", v); break;
    case 3: snprintf(b, sizeof b, "%d", (int)v); break;
    default: snprintf(b, sizeof b, "%.2f", v); break;
  }
  return b;
}
static std::string eq() { return pick({" = ", "=", " =", "= ", "   =   ", " =\t"}); }
static void body() {
  Dims d = gen_dims(4000, 2500);
  int dt = gen_type(), il = gen_il();
  std::string nl = chance(1, 4) ? "\r\n" : "\n";
  std::vector<std::string> f;
  f.push_back("samples" + eq() + std::to_string(d.s));
  f.push_back("lines" + eq() + std::to_string(d.l));
  f.push_back("bands" + eq() + std::to_string(d.b));
  f.push_back("data type" + eq() + std::to_string(dt));
  { std::string v = ILS[il]; if (chance(1, 8)) { for (char& c : v) c = (char)(c - 32); label("layout in capitals"); } f.push_back("interleave" + eq() + v); }
  std::vector<double> want(d.b, 0.0);
  bool has_w = chance(5, 6), multi = false;
  if (has_w) {
    int n = d.b; const char* kind = "as many wavelengths as bands";
    if (chance(1, 6)) { n = (int)range(1, d.b); kind = "fewer wavelengths than bands"; }
    else if (chance(1, 8)) { n = d.b + (int)range(1, 5); kind = "more wavelengths than bands"; }
    label(n < d.b ? "fewer wavelengths" : kind);
    int per = pick({100000, 1, 2, 5, 10, 7});
    std::string sep = pick({",", ", ", " , ", " ", ",  "});
    std::string w = "wavelength" + (chance(1, 3) ? eq() : " = ") + "{"; label_if(w != "wavelength = {", "other spaces before the wavelengths");
    int open = (int)draw(3); if (open == 0) w += " " + nl; else if (open == 1) w += nl; else w += pick({"", " "});
    label(open == 2 ? "wavelengths start on the key's line" : "wavelengths start on their own line");
    Bulk b = bulk(); double base = pick({0.35, 350.0, 1.0, 9000.0});
    for (int k = 0; k < n; k++) {
      std::string s = num(base * (1 + 0.01 * k + 0.004 * b.unit()));
      if (k < d.b) want[k] = atof(s.c_str());
      w += s;
      if (k + 1 < n) { w += sep; if ((k + 1) % per == 0) { if (sep == " " && chance(1, 2)) w += ","; w += nl; multi = true; if (chance(1, 2)) w += " "; } }
    }
    w += pick({"}", " }", "", ""}) ;
    if (w.back() != '}') w += nl + "}";
    label_if(w.size() > 10000, "wavelength list over 10000 characters");
    label_if(multi, "wavelengths over several lines");
    f.push_back(w);
  }
  static const char* const others[] = {
    "description = { made by some software, 3 bands of 2 lines}", "file type = ENVI Standard", "sensor type = Unknown",
    "byte order = 0", "header offset = 0", "wavelength units = Micrometers", "wavelength units = 12",
    "default bands = {3, 2, 1}", "fwhm = {0.01, 0.02, 0.03}", "bbl = {1, 1, 0}", "data ignore value = -9999", "data ignore value = 3",
    "data gain values = {1.0, 2.0}", "data offset values = {0, 0}", "x start = 17", "y start = 21", "map info = {UTM, 1.000, 1.000, 500000.0, 4100000.0, 30.0, 30.0, 11, North, WGS-84}",
    "reflectance scale factor = 10000", "default stretch = 2.0% linear", "z plot range = {0.0, 5000.0}", "z plot titles = {Wavelength, Reflectance}",
    "", "; a comment", "sensor lines = 7", "number of bands = 9", "total samples = 3", "cloud cover = 5", "interpolation = 2",
    "description = {Convert interleave Result, bsq to bip}", "description = { interleave = bil of lines = 5, samples = 3 and bands = 2}", "description = {[wavelength = {1, 2, 3}]}", "previous interleave = bsq", "old data type = 2"};
  int extra = (int)range(0, 8), tail_interleave = 0;
  for (int i = 0; i < extra; i++) f.push_back(others[draw(sizeof others / sizeof *others)]);
  if (chance(1, 4)) { std::string t = "band names = {" + nl; for (int k = 0; k < d.b && k < 400; k++) { t += " Band " + std::to_string(k + 1) + (k + 1 < d.b ? "," : "}"); if (k % 3 == 2) t += nl; } if (t.back() != '}') t += "}"; f.push_back(t); label("band names over several lines"); }
  if (chance(1, 10)) { f.push_back("description = {" + std::string((size_t)range(9000, 23000), 'x') + "}"); label("a line over 9000 characters"); }
  if (chance(1, 8)) {   // what stands in braces says nothing, whatever it looks like
    std::string t = pick({"description = {", "description={", "comment = { ", "history = {"}); int k = (int)range(1, 9);
    static const char* const inner[] = {"lines = 7", "samples = 5", "bands = 2", "interleave = bil", "data type = 3", "wavelength = [1, 2]", "  lines = 4", "band = {", "some words", "", "byte order = 0", "ENVI"};
    if (chance(1, 2)) t += inner[draw(12)];
    for (int i = 0; i < k; i++) { t += nl; t += inner[draw(12)]; }
    t += chance(1, 2) ? "}" : nl + "}"; f.push_back(t); label("lines that look like fields in a description");
  }
  if (chance(1, 12)) {  // so does the text of a long line, wherever it is cut
    bool braces = chance(1, 2); std::string t = braces ? "description = {" : "sensor type = "; t += std::string((size_t)draw(40), '.'); size_t n = (size_t)range(9950, 21000);
    while (t.size() < n) t += pick({"samples = 3 ", "lines=5", "bands = 2 ", "data type = 3 ", "interleave = bil ", "wavelength = {1} ", "lines = 4, "}); if (!braces) for (char& c : t) if (c == '{' || c == '}') c = ' ';
    if (braces) { for (size_t i = 16; i < t.size(); i++) if (t[i] == '}') t[i] = ')'; t += "}"; } f.push_back(t); label("a long line full of what looks like fields");
  }
  // any order
  bool shuffled = chance(3, 4);
  if (shuffled) for (size_t i = f.size() - 1; i > 0; i--) std::swap(f[i], f[draw(i + 1)]);
  label_if(shuffled, "fields in another order");
  std::string h = chance(5, 6) ? "ENVI" + nl : "";
  for (size_t i = 0; i < f.size(); i++) { h += f[i]; if (i + 1 < f.size() || chance(2, 3)) h += nl; }
  (void)tail_interleave;
  std::string shown = h.substr(0, 500); for (auto& c : shown) if (c == '\n' || c == '\r') c = '|';
  describe("%dx%dx%d type %d %s; header: %s", d.s, d.l, d.b, dt, ILS[il], shown.c_str());
  write_file("h.hdr", h.data(), h.size());
  Bytes img((size_t)d.s * d.l * d.b * esize(dt)); fill_bytes(img.data(), img.size());
  write_file("img", img.data(), img.size());
  if (chance(1, 3)) {
    label("read by the C++ interface");
    hypercv::HyMat c = hypercv::hmread("img", "h.hdr");
    REQUIRE(c.samples == d.s && c.lines == d.l && c.bands == d.b && c.dataType == dt && memcmp(c.interleave, ILS[il], 3) == 0, "the C++ interface reads %dx%dx%d type %d %.3s", c.samples, c.lines, c.bands, c.dataType, c.interleave);
    REQUIRE(memcmp(c.data, img.data(), img.size()) == 0, "the C++ interface reads other elements than the file holds");
    for (int k = 0; k < d.b; k++) REQUIRE(near(c.wavelength[k], has_w ? want[k] : 0, 1e-6, 1e-9), "C++ interface: wavelength %d of %d is %.9g, the header says %.9g", k, d.b, c.wavelength[k], want[k]);
    c.release();
  }
  hyper_mat m = hmread_with_hdr("img", "h.hdr");
  check_shape(m, d, dt, il, "cube read with the header");
  REQUIRE(unchanged(img, m), "the elements differ from the file");
  for (int k = 0; k < d.b; k++)
    REQUIRE(near(m->wavelength[k], has_w ? want[k] : 0, 1e-6, 1e-9), "wavelength %d of %d is %.9g, the header says %.9g", k, d.b, m->wavelength[k], want[k]);
  delete_hyper_mat(m);
  nontrivial((shuffled || extra) && has_w && d.b > 1);
}
namespace pbt { Property property_under_test = {"C03",
  "a header made of the six fields with drawn spacing, order, line ends, wavelength list layout and number formats, plus unrelated and look-alike fields, braces full of look-alike lines and lines over the reader's buffer size; compared with the values it was made from; non-trivial: another order or extra fields, wavelengths, several bands",
  60000, 360000, 100, body, {"keys start in column 0 and are lower case, header offset and byte order are 0, no other field's name starts with one of the six names"}}; }
