// A small property-based testing engine.
//
// A case is a sequence of bounded choices.  Generators only draw choices, so
// the sequence determines the case completely: it is what is recorded, shrunk
// and saved for replay.  Cases run in forked workers, so that a crash, an
// AddressSanitizer report, an unexpected exit() or a hang of the code under
// test is an ordinary, shrinkable failure.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <setjmp.h>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <initializer_list>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

// ---- choices -------------------------------------------------------------
uint64_t draw(uint64_t n);                  // uniform in [0,n), shrinks to 0
inline int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
inline bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // shrinks to false
inline double unit() { return (double)draw(1u << 24) / (double)(1u << 24); }
template <class T> T pick(std::initializer_list<T> l) { return l.begin()[draw(l.size())]; }
template <class T> const T& pick(const std::vector<T>& l) { return l[draw(l.size())]; }
// weighted choice: returns index
int weighted(std::initializer_list<int> w);
// a length: mostly small, sometimes log-uniform, sometimes next to a power of two or a round number
int dim(int max);
// a cheap generator for bulk data, seeded by one choice
struct Bulk {
  uint64_t s;
  explicit Bulk(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return next() % n; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  double sym(double a) { return (unit() * 2 - 1) * a; }
};
inline Bulk bulk() { return Bulk(draw(1u << 30)); }

// ---- reporting -----------------------------------------------------------
void label(const char* name);               // count a class of cases
inline void label_if(bool c, const char* name) { if (c) label(name); }
void nontrivial(bool v = true);             // mark the case as non-trivial (by the stated rule)
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard();
#define REQUIRE(c, ...) do { if (!(c)) ::pbt::fail(__VA_ARGS__); } while (0)

// ---- observing rejections --------------------------------------------------
// Runs f.  True if the code under test called exit() inside it.  f must not own
// C++ objects with destructors across the call.
struct Exit { bool exited; int code; std::string out; };
void arm_begin();
void arm_end();
extern sigjmp_buf g_jmp;
extern int g_exit_code;
std::string captured_output();
void start_capture();
template <class F> Exit observe(F&& f) {
  Exit e{false, 0, ""};
  start_capture();
  if (sigsetjmp(g_jmp, 0) == 0) { arm_begin(); f(); arm_end(); }
  else { arm_end(); e.exited = true; e.code = g_exit_code; }
  e.out = captured_output();
  return e;
}
// the documented rejection: a message starting with ERROR, then exit status 1
template <class F> void must_reject(const char* what, F&& f) {
  Exit e = observe(f);
  REQUIRE(e.exited, "%s: expected a rejection (ERROR message and exit 1), but the call returned", what);
  REQUIRE(e.code != 0, "%s: rejected with exit status %d", what, e.code);
  REQUIRE(e.out.find("ERROR") != std::string::npos, "%s: rejected without an ERROR message", what);
}

// the clock seen by the code under test
extern long g_time;

// allocations of the code under test, counted while g_count_allocs: those numbered from..to-1 fail
extern long g_allocs, g_fail_from, g_fail_to; extern bool g_count_allocs;
extern void (*g_before_exit)();             // called when the code under test ends the program

// ---- properties ------------------------------------------------------------
struct Property {
  const char* id;
  const char* rule;                         // how cases are made, what is non-trivial
  long quick_cases, thorough_cases;
  int batch;                                // cases per worker process
  std::function<void()> body;
  std::vector<std::string> assumptions;
  bool once = false;                        // never repeated within a case
};
extern Property property_under_test;        // defined by props/<id>.cpp

}  // namespace pbt
using namespace pbt;
