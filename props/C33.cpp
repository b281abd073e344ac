// C33: calls on different objects may run at the same time
#include "ops.h"
#include <thread>
#include <atomic>
static void body() {
  g_huge = 6000; g_junk = 0x3C; ts.clear(); th.clear(); tb.clear(); g_time = (long)range(0, 1000000);
  int n = (int)range(1, 4), lanes = (int)range(2, 4); std::vector<Op> ops; std::vector<uint64_t> alone;
  while ((int)ops.size() < n) { Op o; switch (weighted({9, 6, 6, 3, 2})) { case 0: o = images(); break; case 1: o = cubes(); break; case 2: o = algorithms(); break; case 3: o = files(); break; default: o = cxx(); }
    if (!strcmp(o.name, "hypercv_k_means")) continue;   // starts from rand(), which the process shares
    ops.push_back(o); describe("%s", o.name); label(o.name); }
  for (auto& o : ops) { g_hash = 0xcbf29ce484222325ull; o.run(); alone.push_back(g_hash); }
  std::vector<std::vector<int>> todo(lanes), rot; std::vector<std::vector<uint64_t>> got(lanes); bool same = false;
  for (auto& t : todo) { int k = (int)range(1, 3); for (int i = 0; i < k; i++) t.push_back((int)draw(n)); }
  for (int a = 0; a < lanes; a++) for (int b = 0; b < a; b++) for (int x : todo[a]) for (int y : todo[b]) same |= x == y;
  std::atomic<int> ready{0}; std::vector<std::thread> run;
  for (int l = 0; l < lanes; l++) run.emplace_back([&, l] { g_lane = l + 1; ready++; while (ready < lanes) std::this_thread::yield(); for (int k : todo[l]) { g_hash = 0xcbf29ce484222325ull; ops[k].run(); got[l].push_back(g_hash); } });
  for (auto& t : run) t.join();
  for (int l = 0; l < lanes; l++) for (size_t i = 0; i < todo[l].size(); i++) REQUIRE(got[l][i] == alone[todo[l][i]], "%s gave another result with %d threads at work", ops[todo[l][i]].name, lanes);
  for (auto& t : ts) REQUIRE(unchanged(t.second, t.first), "an image was changed by the calls it was given to"); for (auto& t : th) REQUIRE(unchanged(t.second, t.first), "a cube was changed by the calls it was given to");
  for (auto& t : ts) delete_simple_mat(t.first); for (auto& t : th) delete_hyper_mat(t.first); for (auto& t : tb) free(t.first); ts.clear(); th.clear(); tb.clear();
  label(lanes == 2 ? "two threads" : lanes == 3 ? "three threads" : "four threads"); label_if(same, "the same call in two threads"); nontrivial(same || n > 1);
}
namespace pbt { Property property_under_test = {"C33",
  "one to four public operations with valid arguments drawn at random, run alone and then by two to four threads at once, in drawn orders, each on results (and files) of its own but on shared sources; every result must be that of the call alone, and ThreadSanitizer must see no data race; non-trivial: two threads make the same call, or different calls are made",
  24000, 144000, 50, body, {"k-means is left out: it starts from rand()", "objects are shared between threads only as sources"}, true}; }
