// C32: when memory or disk space runs out, a call says so and ends; it never goes on with less
#include "ops.h"
#include <signal.h>
#include <sys/resource.h>

static void check_inputs(const char* name) {
  for (auto& t : ts) REQUIRE(unchanged(t.second, t.first), "%s changed an image it was given", name);
  for (auto& t : th) REQUIRE(unchanged(t.second, t.first), "%s changed a cube it was given", name);
  for (auto& t : tb) REQUIRE(memcmp(t.first, t.second.data(), t.second.size()) == 0, "%s changed an array it was given", name);
}
static off_t err_size() { struct stat st; return fstat(2, &st) ? 0 : st.st_size; }
// the call may end the program with a message and a failing status; true if it did
static bool ended(const char* name, const char* why, const Exit& e, off_t err0) {
  if (!e.exited) return false;
  REQUIRE(e.code != 0, "%s ended with status 0 when %s", name, why);
  REQUIRE(e.out.find("ERROR") != std::string::npos || err_size() > err0, "%s ended without a message when %s", name, why);
  return true;
}
static void memory() {
  Op o; switch (weighted({8, 6, 5, 3, 2})) { case 0: o = images(); break; case 1: o = cubes(); break; case 2: o = algorithms(); break; case 3: o = files(); break; default: o = cxx(); }
  describe("%s", o.name); label(o.name);
  g_junk = 0x3C; uint64_t good; long n;
  g_hash = 1; g_allocs = 0; g_fail_from = g_fail_to = -1; g_count_allocs = true; o.run(); g_count_allocs = false; n = g_allocs; good = g_hash;
  int tries = n == 0 ? 0 : (int)range(1, std::min(4l, n));
  for (int t = 0; t < tries; t++) {
    long k = (long)draw(std::min(n, 64l)), len = chance(1, 4) ? n : 1;
    if (chance(1, 4)) k = n - 1 - k;
    describe("allocation %ld%s of %ld fails", k + 1, len > 1 ? " and all later ones" : "", n);
    char why[80]; snprintf(why, sizeof why, "allocation %ld of %ld failed", k + 1, n);
    g_hash = 1; g_allocs = 0; g_fail_from = k; g_fail_to = k + len; off_t e0 = err_size();
    static const Op* cur; cur = &o; Exit e = observe([] { g_count_allocs = true; cur->run(); g_count_allocs = false; }); g_count_allocs = false;
    bool end = ended(o.name, why, e, e0); check_inputs(o.name); label_if(end, "ended with a message"); nontrivial(g_allocs > k);
    if (!end) { label("went on with the full result"); REQUIRE(g_hash == good, "%s went on when %s, with another result", o.name, why); }
    g_hash = 1; o.run(); REQUIRE(g_hash == good, "%s gives another result after a call of it failed", o.name);
  }
}
static void limit(rlim_t n) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
static void unlimit() { limit(RLIM_INFINITY); }
static void disk() {
  signal(SIGXFSZ, SIG_IGN); g_before_exit = unlimit;
  Dims d = gen_dims(chance(1, 4) ? 20000 : 600, 3000); int dt = gen_type(), il = gen_il();
  std::function<void()> save; std::vector<const char*> out; const char* name; HyMat hm;
  switch (draw(3)) {
    case 0: { H m = in(gen_cube(d, dt, il)); save = [=] { hmsave("ds", m); }; out = {"ds", "ds.hdr"}; name = "hmsave"; break; }
    case 1: { S m = gray(Dims2{d.l, d.s}, pick({1, 3})); save = [=] { smwrite_bmp("ds.bmp", m); }; out = {"ds.bmp"}; name = "smwrite_bmp"; break; }
    default: { Bytes q((size_t)d.s * d.l * d.b * esize(dt)); fill_bytes(q.data(), q.size()); hm = HyMat(d.s, d.l, d.b, dt, il); hm.CopyData(q.data()); Bulk w = bulk(); for (int i = 0; i < d.b; i++) hm.wavelength[i] = (float)w.unit(); HyMat* p = &hm; save = [p] { p->save("ds.img"); }; out = {"ds.img", "ds.hdr"}; name = "HyMat::save"; }
  }
  label(name); describe("%s of %d x %d x %d", name, d.s, d.l, d.b);
  const char* all[] = {"ds", "ds.hdr", "ds.bmp", "ds.img", "ds.img.aux.xml"}; for (const char* f : all) unlink(f);
  save(); std::vector<Bytes> good; size_t most = 0; for (const char* f : out) { good.push_back(read_file(f)); most = std::max(most, good.back().size()); }
  int tries = (int)range(1, 3);
  for (int t = 0; t < tries; t++) {
    bool fresh = chance(1, 2); if (fresh) for (const char* f : all) unlink(f);
    bool noroom = chance(1, 8); size_t room = chance(1, 2) ? draw(most) : good[draw(good.size())].size() - 1 - draw(std::min<size_t>(3, good[0].size()));
    if (room > most) room = 0;
    if (noroom) { for (const char* f : all) unlink(f); const char* f = out[draw(out.size())]; mkdir(f, 0700); describe("%s is a directory", f); } else describe("files of up to %zu of %zu bytes", room, most);
    static const std::function<void()>* cur; cur = &save; off_t e0 = err_size(); static size_t r; r = room; static bool nr; nr = noroom;
    Exit e = observe([] { if (!nr) limit(r); (*cur)(); unlimit(); }); unlimit();
    if (noroom) for (const char* f : out) rmdir(f);
    bool end = ended(name, noroom ? "a file could not be created" : "the disk was full", e, e0); check_inputs(name);
    if (!end) for (size_t i = 0; i < out.size(); i++) { Bytes b = noroom ? Bytes() : read_file(out[i]); REQUIRE(b == good[i], "%s returned when %s, but %s has %zu bytes and not the %zu of the complete file, or others", name, noroom ? "a file could not be created" : "the disk was full", out[i], b.size(), good[i].size()); }
    label_if(end, "ended with a message"); label_if(noroom, "a directory in place of the file"); nontrivial();
    save(); for (size_t i = 0; i < out.size(); i++) REQUIRE(read_file(out[i]) == good[i], "%s after a failed save writes another %s", name, out[i]);
  }
  if (hm.data) hm.release(); g_before_exit = NULL;
}
static void body() {
  g_huge = 3000;
  static bool hooked = false; if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
  g_junk = -1; ts.clear(); th.clear(); tb.clear(); g_time = (long)range(0, 1000000);
  if (chance(1, 4)) disk(); else memory();
  g_junk = -1; for (auto& t : ts) delete_simple_mat(t.first); for (auto& t : th) delete_hyper_mat(t.first); for (auto& t : tb) free(t.first); ts.clear(); th.clear(); tb.clear();
}
namespace pbt { Property property_under_test = {"C32",
  "a public operation with valid arguments drawn at random, in which a drawn allocation (or it and all later ones) fails, or a save with room for a drawn number of bytes per file, or with a directory in the place of a file; the call must end the program with a message and a failing status, or give the complete result, without a crash and without changing its arguments, and the next call must work; non-trivial: the fault occurred",
  32000, 192000, 25, body, {"allocations through malloc, calloc and realloc in the library fail; C++ new and those inside GDAL and the C library do not", "a full disk is a limit on the size of each file"}, true}; }
