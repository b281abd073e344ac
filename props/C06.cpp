// C06: the growable vector, as a history against std::vector
#include "hcv.h"
extern "C" {
#include "c_include/vector.h"
}
template <class T> static T val() { T t; unsigned char* p = (unsigned char*)&t; for (size_t i = 0; i < sizeof t; i++) p[i] = (unsigned char)draw(256); return t; }
struct Big { int a; char b[19]; double c; };
template <class T> static T bulkval(Bulk& b) { T t; unsigned char* p = (unsigned char*)&t; for (size_t i = 0; i < sizeof t; i++) p[i] = (unsigned char)b.next(); return t; }
template <class T> static bool eq(const T& a, const T& b) { return memcmp((const void*)&a, (const void*)&b, sizeof a) == 0; }
template <class T> static void run(const char* tn) {
  T* v = NULL; std::vector<T> m; int steps = (int)range(1, 40), erases = 0, grows = 0, refills = 0; size_t cap = 0; bool named = false, shrunk = false, large = false;
  describe("vector of %s", tn);
  Bulk bk = bulk();
  for (int t = 0; t < steps; t++) {
    switch (weighted({6, 2, 3, 2, 1, 1, 2, 1, 3})) {
      case 0: { T x = bulkval<T>(bk); vector_push_back(v, x); m.push_back(x); describe("push"); break; }
      case 1: { bool huge = !large && chance(1, 2500); large |= huge; int n = huge ? (int)range(60000, 140000) : (int)range(1, 300); for (int i = 0; i < n; i++) { T x = bulkval<T>(bk); vector_push_back(v, x); m.push_back(x); } describe("push %d", n); break; }
      case 2: if (!m.empty()) { size_t i = draw(m.size()); vector_erase(v, i); m.erase(m.begin() + i); describe("erase %zu", i); erases++; int n = chance(1, 4) ? (int)draw(std::min<size_t>(m.size(), 5000) + 1) : 0; if (large) n = std::min(n, 20); if (n) describe("erase %d more", n); for (; n > 0; n--) { i = bk.below(m.size()); vector_erase(v, i); m.erase(m.begin() + i); } } break;
      case 3: if (!m.empty()) { size_t n = chance(1, 2) ? 1 : draw(m.size()) + 1; for (size_t i = 0; i < n; i++) { vector_pop_back(v); m.pop_back(); REQUIRE(vector_size(v) == m.size() && vector_capacity(v) >= m.size(), "size %zu, capacity %zu after popping to %zu", (size_t)vector_size(v), (size_t)vector_capacity(v), m.size()); } describe("pop %zu", n); label_if(n > 20, "more than 20 pops"); } break;
      case 4: { vector_free(v); REQUIRE(v == NULL, "a freed vector is not NULL"); m.clear(); cap = 0; describe("free"); refills++; break; }
      case 5: { size_t n = (size_t)range(0, 70); T x = bulkval<T>(bk); vector_init(v, x, n); m.assign(n, x); cap = 0; describe("init %zu", n); break; }
      case 6: if (!m.empty()) { size_t i = draw(m.size()); T x = bulkval<T>(bk); v[i] = x; m[i] = x; describe("write %zu", i); } break;
      case 8: {   // arguments that are expressions, the vector itself reached through a pointer
        T** p = &v; size_t n = m.size(), i = n ? draw(n) : 0; bool few = chance(1, 2); T x = bulkval<T>(bk); named = true;
        switch (draw(6)) {
          case 0: if (n) { vector_erase(v, vector_size(v) - 1); m.pop_back(); describe("erase the last by its index"); erases++; } break;
          case 1: if (n) { vector_erase(*p, vector_size(*p) - 1 - i); m.erase(m.end() - 1 - i); describe("erase %zu from the end, through a pointer", i); erases++; } break;
          case 2: for (int k = 0; k < 3; k++) { x = bulkval<T>(bk); vector_push_back(*p, x); m.push_back(x); } describe("push 3 through a pointer"); break;
          case 3: if (n) { vector_push_back(v, v[i]); T y = m[i]; m.push_back(y); describe("push a copy of element %zu", i); } break;
          case 4: vector_init(*p, x, few ? 2u : 9u); m.assign(few ? 2 : 9, x); cap = 0; describe("init %d, chosen by a condition, through a pointer", few ? 2 : 9); break;
          default: if (n) { vector_pop_back(*p); m.pop_back(); describe("pop through a pointer"); } break;
        }
        break; }
      default: { size_t i = m.size() + draw(3); vector_erase(v, i); describe("erase %zu past the end", i); break; }
    }
    REQUIRE(vector_size(v) == m.size(), "size %zu instead of %zu after step %d", (size_t)vector_size(v), m.size(), t + 1);
    REQUIRE(vector_capacity(v) >= m.size(), "capacity %zu below the size %zu", (size_t)vector_capacity(v), m.size());
    REQUIRE((vector_empty(v) != 0) == m.empty(), "emptiness is wrong for %zu elements", m.size());
    shrunk |= m.size() * 4 < vector_capacity(v); if (vector_capacity(v) != cap) { cap = vector_capacity(v); grows++; }
    for (size_t i = 0; i < m.size(); i++) REQUIRE(eq(v[i], m[i]), "element %zu of %zu differs from the model after step %d", i, m.size(), t + 1);
    size_t n = 0; if (v) for (T* it = vector_begin(v); it != vector_end(v); it++) { REQUIRE(eq(*it, m[n]), "iteration differs at %zu", n); n++; }
    REQUIRE(n == m.size(), "iteration visits %zu of %zu elements", n, m.size());
  }
  vector_free(v);
  label_if(shrunk, "emptied to less than a quarter of its room"); label_if(large, "tens of thousands of elements"); label_if(named, "expressions as arguments"); label_if(erases && grows > 2, "erasures and several growths"); label_if(refills, "freed and used again");
  nontrivial(m.size() + erases > 2 && grows > 1);
}
static void body() { switch (draw(5)) { case 0: run<int>("int"); break; case 1: run<char>("char"); break; case 2: run<double>("double"); break; case 3: run<POINT>("POINT"); break; default: run<Big>("a 32 byte struct"); } }
namespace pbt { Property property_under_test = {"C06",
  "a history of 1..40 operations (push one or many, erase by index, pop, write, free, re-initialise; arguments plain or expressions, the vector named directly or through a pointer) on a vector of one of five element types against std::vector; size, capacity, emptiness, every element and iteration are compared after every step; non-trivial: several growths and elements",
  240000, 1440000, 200, body, {"pop is not called on an empty vector"}}; }
