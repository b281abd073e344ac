// C31: a call keeps to its arguments: results depend on nothing else, and nothing is left behind
#include "ops.h"
#include <sys/mman.h>
#include <sys/wait.h>
static int next_fd() { int f = open("/dev/null", O_RDONLY); close(f); return f; }
struct Shared { uint64_t hash; int done; };
static void turn(void* p, size_t n, size_t e) { char* a = (char*)p; if (n % e) e = 1; for (size_t i = 0, j = n / e; i + 1 < j; i++) { j--; std::swap_ranges(a + i * e, a + (i + 1) * e, a + j * e); } }
static void shift(void* p, size_t n, int type) {   // other values of the same range
  if (type == 1) for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] ^= 0x55;
  else if (type == 4) for (size_t i = 0; i < n / 4; i++) ((float*)p)[i] = ((float*)p)[i] * 0.5f + 0.25f;
  else if (type == 5) for (size_t i = 0; i < n / 8; i++) ((double*)p)[i] = ((double*)p)[i] * 0.5 + 0.25;
  else for (size_t e = esize(type), i = 0; i + e <= n; i += e) ((unsigned char*)p)[i] ^= 1;
}
static void change_contents(int how) {
  for (auto& t : ts) { size_t e = esize(t.first->data_type), n = mat_elems(t.first) * e; turn(t.first->data, n, e); if (how == 2) shift(t.first->data, n, t.first->data_type); }
  for (auto& t : th) { size_t n = cube_bytes(t.first); turn(t.first->data, n, esize(t.first->data_type)); turn(t.first->wavelength, t.first->bands * 4, 4); if (how == 2) shift(t.first->data, n, t.first->data_type); }
  for (auto& t : tb) turn(t.first, t.second.size(), 4);
}
static std::vector<Bytes> kept() {
  std::vector<Bytes> k; auto put = [&](void* p, size_t n) { k.emplace_back((unsigned char*)p, (unsigned char*)p + n); };
  for (auto& t : ts) put(t.first->data, mat_elems(t.first) * esize(t.first->data_type)); for (auto& t : th) { put(t.first->data, cube_bytes(t.first)); put(t.first->wavelength, t.first->bands * 4); } for (auto& t : tb) put(t.first, t.second.size());
  return k;
}
static void restore(const std::vector<Bytes>& k) {
  size_t i = 0; auto get = [&](void* p) { if (k[i].size()) memcpy(p, k[i].data(), k[i].size()); i++; };
  for (auto& t : ts) get(t.first->data); for (auto& t : th) { get(t.first->data); get(t.first->wavelength); } for (auto& t : tb) get(t.first);
}
static void body() {
  g_huge = 3000;
  static bool hooked = false; if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
  g_junk = -1; ts.clear(); th.clear(); tb.clear(); g_time = (long)range(0, 1000000);
  int n = (int)range(1, 5); bool siblings = n > 1 && chance(1, 4), apart = chance(1, 4); int kind = siblings ? weighted({9, 6, 5, 3, 2}) : 0; g_nth = siblings ? (int)draw(3654) : -1; one_size(siblings); std::vector<Op> ops; std::vector<uint64_t> first(n);
  for (int i = 0; i < n; i++) { Op o; switch (siblings ? kind : weighted({9, 6, 5, 3, 2})) { case 0: o = images(); break; case 1: o = cubes(); break; case 2: o = algorithms(); break; case 3: o = files(); break; default: o = cxx(); } ops.push_back(o); describe("%s", o.name); label(o.name); }
  label_if(siblings, "one function, arguments of one size"); label_if(apart, "compared with the call alone"); one_size(false); g_nth = -1;
  // what each call gives in a process of its own, as it stands or with other contents in the same objects
  std::vector<int> other(n, 0), known(n, 0); std::vector<uint64_t> ref(n, 0);
  static Shared* sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (apart) for (int i = 0; i < n; i++) {
    other[i] = (int)draw(3); sh->done = 0; fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) { alarm(100); if (freopen("/dev/null", "w", stdout) && freopen("/dev/null", "w", stderr)) {} if (other[i]) change_contents(other[i]); g_junk = 0xA5; g_hash = 0xcbf29ce484222325ull; ops[i].run(); sh->hash = g_hash; sh->done = 1; _exit(0); }
    int st; if (pid > 0) while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (pid > 0 && sh->done) { known[i] = 1; ref[i] = sh->hash; }
  }
  std::vector<int> order(n); static const int junk[3] = {0xA5, 0x3C, 0x00};
  for (int round = 0; round < 3; round++) {
    for (int i = 0; i < n; i++) order[i] = round == 1 ? n - 1 - i : i;
    for (int i : order) {
      const Op& o = ops[i]; g_junk = junk[round]; g_hash = 0xcbf29ce484222325ull;
      if (round == 2) { size_t l0, l1; int f0, f1, again = 0;
        do { f0 = next_fd(); l0 = __sanitizer_get_current_allocated_bytes(); g_hash = 0xcbf29ce484222325ull; o.run(); l1 = __sanitizer_get_current_allocated_bytes(); f1 = next_fd(); } while ((l1 > l0 || f0 != f1) && ++again < 4);   // what GDAL keeps for later is kept once
        g_junk = -1; REQUIRE(f0 == f1, "%s left a file open", o.name); REQUIRE(l1 <= l0, "%s left %ld bytes of memory behind", o.name, (long)(l1 - l0)); }
      else o.run();
      g_junk = -1;
      if (round == 0 && known[i] && !other[i]) REQUIRE(g_hash == ref[i], "%s gave another result after other calls than in a process of its own", o.name);
      if (round == 0) first[i] = g_hash; else REQUIRE(g_hash == first[i], "%s gave another result when called again with the same arguments, after other calls and with other values in new memory", o.name);
      for (auto& t : ts) REQUIRE(unchanged(t.second, t.first), "%s changed an image it was given", o.name);
      for (auto& t : th) REQUIRE(unchanged(t.second, t.first), "%s changed a cube it was given", o.name);
      for (auto& t : tb) REQUIRE(memcmp(t.first, t.second.data(), t.second.size()) == 0, "%s changed an array it was given", o.name);
    }
    if (round == 0 && apart) for (int i = 0; i < n; i++) if (known[i] && other[i]) {
      std::vector<Bytes> k = kept(); change_contents(other[i]); g_junk = 0xA5; g_hash = 0xcbf29ce484222325ull; ops[i].run(); g_junk = -1; uint64_t h = g_hash; restore(k);
      REQUIRE(h == ref[i], "%s gave another result on changed arguments, after a call with what they held before, than in a process of its own", ops[i].name);
    }
  }
  label_if(apart && *std::min_element(known.begin(), known.end()) == 0, "a call alone gave no answer");
  for (auto& t : ts) delete_simple_mat(t.first); for (auto& t : th) delete_hyper_mat(t.first); for (auto& t : tb) free(t.first); ts.clear(); th.clear(); tb.clear();
  nontrivial(n > 1); 
}
namespace pbt { Property property_under_test = {"C31",
  "one to five public operations with valid arguments drawn at random, called three times, forwards, backwards and forwards again, with different values in new memory and in the destinations each time; every call must give the same result (in a quarter of the cases also the one it gives in a process of its own, with these or other contents in the same objects), leave its arguments as they were, stay inside its objects (AddressSanitizer, the slack of aligned objects poisoned) and, once its results are deleted, leave no memory allocated and no file open; non-trivial: at least two operations",
  48000, 288000, 30, body, {"the clock stands still"}, true}; }
