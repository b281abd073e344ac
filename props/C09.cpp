// C09: numbers in text
#include "hcv.h"
static std::string digits(int lo, int hi) { int n = (int)range(lo, hi); std::string s; for (int i = 0; i < n; i++) s += (char)('0' + draw(10)); return s; }
static std::string number(double* val, bool nodot_ok = true) {
  std::string s; bool neg = false;
  if (chance(1, 3)) { neg = true; s += '-'; } else if (chance(1, 6)) s += '+';
  std::string ip = digits(1, (int)pick({1, 3, 6, 9, 14})), fp; bool dot = !nodot_ok || chance(2, 3);
  if (dot && chance(1, 12)) { ip = ""; label("no digit before the point"); } s += ip; if (dot) { s += '.'; fp = digits(ip.empty(), (int)pick({1, 4, 8, 12, 40})); s += fp; }
  std::string m = s; int e = 0;
  if (chance(1, 3)) { e = (int)range(0, chance(1, 4) ? 22 : 9); bool en = chance(1, 2); s += chance(1, 2) ? 'e' : 'E'; if (en) { s += '-'; e = -e; } else if (chance(1, 2)) s += '+'; if (chance(1, 4)) s += '0'; s += std::to_string(abs(e)); label(en ? "negative exponent" : "positive exponent"); }
  *val = strtod(s.c_str(), NULL);
  label_if(neg, "negative number"); label_if(fp.size() > 9, "ten or more decimals"); label_if(!fp.empty(), "decimals");
  return s;
}
static void text() {
  double v; std::string s(draw(4), ' '); s += number(&v);
  bool more = chance(1, 4); if (more) { s += pick({" ", "\n", "\t", ", ", ";", " nm", "-", "+", " e", " -", "x"}); if (chance(3, 4)) s += digits(1, 3); if (chance(1, 4)) s += " 2.5e7"; label("text after the number"); }
  describe("\"%s\"", s.c_str());
  char* h = (char*)malloc(s.size() + 1); memcpy(h, s.c_str(), s.size() + 1);     // exact allocation: reading past the end is seen
  float g = hypercv_atof(h); free(h);
  REQUIRE(near(g, v, 2e-6, 1e-30), "\"%s\" was read as %.9g instead of %.9g", s.c_str(), g, v);
  nontrivial(s.size() > 2);
}
static void spectrum() {
  int n = chance(1, 10) ? (int)range(0, 3) : dim(chance(1, 15) ? 3000 : 260), len = chance(1, 3) ? n : std::max(1, (int)range(std::max(1, n - 20), n + 20));
  if (len < 1) len = 1;
  std::string t; std::vector<double> v; bool crlf = chance(1, 4);
  if (chance(1, 5)) t += "\n  ";
  for (int i = 0; i < n; i++) { double x; if (n < 40) t += number(&x); else { Bulk b = bulk(); (void)b; x = 0; char q[40]; snprintf(q, sizeof q, "%.*f", (int)draw(7), (double)draw(1u << 30) / 1e6 - 200); x = strtod(q, NULL); t += q; }
    v.push_back(x); if (i + 1 < n || chance(1, 2)) t += crlf ? "\r\n" : n < 40 ? pick({"\n", " ", "\t", "\n\n", "  \n"}) : "\n"; }
  bool junk = chance(1, 6); if (junk) t += " end of data 5 6 7\n";
  std::string path = any_path("sp.txt"); write_file(path.c_str(), t.data(), t.size());
  describe("spectrum of %d numbers read with length %d%s", n, len, junk ? ", text after it" : "");
  float* p = read_spectrum_file(path.c_str(), len);
  REQUIRE(p != NULL, "no spectrum");
  for (int i = 0; i < len; i++) {
    double e = i < n ? v[i] : 0;
    REQUIRE(near(p[i], e, 1e-6, 1e-30), "number %d of %d (%d asked) is %.9g instead of %.9g", i, n, len, p[i], e);
  }
  free(p); unlink(path.c_str());
  label(n > len ? "file longer than asked" : n < len ? "file shorter than asked" : "file of the length asked"); nontrivial(n > 2);
}
static void body() { if (chance(1, 3)) spectrum(); else text(); }
namespace pbt { Property property_under_test = {"C09",
  "a number in drawn decimal notation (sign, digits, decimals, exponent with or without sign), alone or with text after it, converted and compared with strtod; spectrum files of drawn length, separators and trailing text read with a shorter, equal or longer length; non-trivial: more than two characters or numbers",
  480000, 2880000, 200, body, {"values stay within float range"}}; }
