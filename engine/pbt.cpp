#include "pbt.h"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <map>
#include <set>
#include <atomic>

namespace pbt {

typedef std::vector<uint64_t> Choices;

// ---- shared with the workers ----------------------------------------------
static const size_t MAXCHOICE = 1 << 16;
static const int MAXLABEL = 160;
struct Slot {                    // one per worker
  volatile long idx;             // case being run
  volatile size_t n;             // choices drawn so far
  volatile int status;           // 0 running, 1 finished, 2 failed
  char msg[2048];
  char desc[2048];
  uint64_t c[MAXCHOICE];
};
struct LabelSlot { char name[64]; std::atomic<long> count; };
struct Shared {
  std::atomic<int> nlabel_lock;
  int nlabels;
  LabelSlot labels[MAXLABEL];
  std::atomic<long> evaluations, nontriv, discarded;
  std::atomic<int> nsamples;
  char samples[12][1200];
};
static Slot* g_slot;             // in a worker: its slot
static Shared* g_sh;
static uint64_t* g_hash;         // per case: hash of its choices if non-trivial
static long g_ncases;

static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

// ---- the current case --------------------------------------------------------
static bool g_replaying;
static const Choices* g_in;
static size_t g_pos;
static uint64_t g_rng;
static bool g_nontrivial;
static std::string g_desc;
static std::vector<std::string> g_labels;
#ifdef PBT_FUZZ
static const uint8_t* g_fz; static size_t g_fzn;
#endif

static Choices g_echo; static size_t g_echo_pos; static bool g_echoing;   // a second run of the body with mostly the same choices
static uint64_t g_echo_rng;
static bool echoed(uint64_t n, uint64_t& v) {   // contents are new, sizes and parameters mostly stay
  if (!g_echoing || g_echo_pos >= g_echo.size()) return false;
  uint64_t old = g_echo[g_echo_pos++]; g_echo_rng += 0x9E3779B97F4A7C15ull; uint64_t r = mix(g_echo_rng);
  if (n >= (1u << 30) ? r % 8 != 0 : n >= (1u << 24) ? r % 2 != 0 : r % 64 == 0) return false;
  v = old % n; return true;
}
uint64_t draw(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v, e;
  bool same = echoed(n, e);
#ifdef PBT_FUZZ
  if (g_fz) {
    int bytes = n <= 256 ? 1 : n <= 65536 ? 2 : n <= 0x100000000ull ? 4 : 8;
    v = 0;
    for (int i = 0; i < bytes && g_fzn; i++) { v = v << 8 | *g_fz++; g_fzn--; }
    v = same ? e : v % n;
    if (g_slot->n >= MAXCHOICE) discard();   // also ends rejection loops on the zeros after the input
    g_slot->c[g_slot->n] = v; g_slot->n = g_slot->n + 1;
    return v;
  }
#endif
  if (g_replaying) v = g_pos < g_in->size() ? (*g_in)[g_pos] % n : 0;
  else { g_rng += 0x9E3779B97F4A7C15ull; v = same ? e : mix(g_rng) % n; }
  g_pos++;
  if (g_slot->n < MAXCHOICE) { g_slot->c[g_slot->n] = v; g_slot->n = g_slot->n + 1; }
  else discard();
  return v;
}

int weighted(std::initializer_list<int> w) {
  int s = 0; for (int x : w) s += x;
  int v = (int)draw(s), i = 0;
  for (int x : w) { if (v < x) return i; v -= x; i++; }
  return 0;
}

int dim(int max) {
  static const int edge[] = {1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 10000};
  switch (weighted({5, 3, 3})) {
    case 0: return (int)range(1, std::min(max, 9));
    case 1: {
      int bits = 0; while ((1 << (bits + 1)) <= max) bits++;
      int b = (int)range(0, bits); int lo = 1 << b, hi = std::min(max, (2 << b) - 1);
      return (int)range(lo, hi);
    }
    default: {
      int n = 0; while (n < (int)(sizeof edge / sizeof *edge) && edge[n] <= max) n++;
      return edge[draw(n)];
    }
  }
}

void label(const char* name) { for (auto& s : g_labels) if (s == name) return; g_labels.push_back(name); }
void nontrivial(bool v) { if (v) g_nontrivial = true; }
void describe(const char* fmt, ...) {
  char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (g_desc.size() > 1800) return;
  if (!g_desc.empty()) g_desc += "; ";
  g_desc += b;
  strncpy(g_slot->desc, g_desc.c_str(), sizeof g_slot->desc - 1);
}
void fail(const char* fmt, ...) {
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Fail{b};
}
void discard() { throw Discard(); }

#ifdef PBT_FUZZ
extern void pbt_dump();
#endif
// ---- exit() and output ---------------------------------------------------------
sigjmp_buf g_jmp;
int g_exit_code;
static bool g_armed;
long g_time = 1600000000;
void arm_begin() { g_armed = true; }
void arm_end() { g_armed = false; }
static int g_outfd = -1;
void start_capture() { fflush(stdout); if (g_outfd >= 0) { if (ftruncate(g_outfd, 0)) {} lseek(g_outfd, 0, SEEK_SET); } }
std::string captured_output() {
  fflush(stdout);
  std::string s;
  if (g_outfd < 0) return s;
  char b[4096]; ssize_t n; off_t o = 0;
  while (o < 65536 && (n = pread(g_outfd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
  return s;
}
static void die(const char* msg) {
  if (g_slot) { strncpy(g_slot->msg, msg, sizeof g_slot->msg - 1); g_slot->status = 2; }
  _exit(97);
}
#ifdef PBT_FUZZ
static bool g_in_case;
extern "C" void __real_exit(int);
#endif
extern void (*g_before_exit)();
extern "C" void __wrap_exit(int code) {
  if (g_before_exit) g_before_exit();
#ifdef PBT_FUZZ
  if (!g_in_case) __real_exit(code);
#endif
  if (g_armed) { g_exit_code = code; siglongjmp(g_jmp, 1); }
  std::string o = captured_output();
  size_t p = o.rfind("ERROR");
  std::string m = "the code under test rejected a valid input: exit(" + std::to_string(code) + ") " + (p == std::string::npos ? "" : o.substr(p, 200));
  while (!m.empty() && m.back() == '\n') m.pop_back();
#ifdef PBT_FUZZ
  fprintf(stderr, "PBT-FAIL %s\n", m.c_str());
  pbt_dump();
  abort();
#else
  die(m.c_str());
#endif
}
// allocations of the code under test can be made to fail
long g_allocs, g_fail_from = -1, g_fail_to = -1; bool g_count_allocs; void (*g_before_exit)();
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); }
static inline bool fault() { if (!g_count_allocs) return false; long k = g_allocs++; return k >= g_fail_from && k < g_fail_to; }
extern "C" void* __wrap_malloc(size_t n) { return fault() ? NULL : __real_malloc(n); }
extern "C" void* __wrap_calloc(size_t k, size_t n) { return fault() ? NULL : __real_calloc(k, n); }
extern "C" void* __wrap_realloc(void* p, size_t n) { return fault() ? NULL : __real_realloc(p, n); }
extern "C" long __wrap_time(long* t) { if (t) *t = g_time; return g_time; }

// the body; then, in one of eight cases, once more with arguments of the same shape and other contents
static void run_body() {
  g_echoing = false; struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
  property_under_test.body();
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
  if (property_under_test.once || (!g_replaying && (b.tv_sec - a.tv_sec) * 1e3 + (b.tv_nsec - a.tv_nsec) / 1e6 > 60)) return;
  size_t n = g_slot->n; if (!chance(1, 8)) return;
  label("repeated with other contents"); describe("AGAIN");
  g_echo.assign(g_slot->c, g_slot->c + n); g_echo_pos = 0; g_echo_rng = n * 77 + (n ? g_slot->c[n - 1] : 0); g_echoing = true; g_time = 1600000000; g_count_allocs = false; g_before_exit = NULL;
  try { property_under_test.body(); } catch (Discard&) { label("repetition without a case"); }
  g_echoing = false;
}

// ---- running cases in a worker ---------------------------------------------------
static int g_cpu_limit = 40;
static void on_cpu(int) { die("no result after 40 s of CPU time in one case (hang)"); }
static void case_timer(int secs) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, NULL);
}

// one case; true if it held
static bool run_case(const Choices* in, uint64_t seed) {
  g_replaying = in != NULL; g_in = in; g_pos = 0; g_rng = seed;
  g_nontrivial = false; g_desc.clear(); g_labels.clear(); g_time = 1600000000; g_count_allocs = false; g_before_exit = NULL;
  g_slot->n = 0; g_slot->desc[0] = 0;
  start_capture();
  case_timer(g_cpu_limit);
  try { run_body(); }
  catch (Discard&) { g_sh->discarded++; case_timer(0); g_nontrivial = false; return true; }
  catch (Fail& f) { case_timer(0); strncpy(g_slot->msg, f.msg.c_str(), sizeof g_slot->msg - 1); g_slot->status = 2; return false; }
  case_timer(0);
  return true;
}
static uint64_t case_seed(uint64_t seed, long idx) {
  uint64_t h = 1469598103934665603ull;
  for (const char* p = property_under_test.id; *p; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull;
  return mix(mix(seed ^ h) + (uint64_t)idx * 0xD1342543DE82EF95ull);
}

static std::string g_scratch;
static void worker_setup(const char* tag) {
  signal(SIGPROF, on_cpu);
  std::string d = g_scratch + "/w_" + tag;
  mkdir(d.c_str(), 0700);
  if (chdir(d.c_str())) _exit(98);
  g_outfd = open("../", O_TMPFILE | O_RDWR, 0600);
  if (g_outfd < 0) g_outfd = (int)syscall(SYS_memfd_create, "out", 0);
  dup2(g_outfd, 1);
  std::string e = g_scratch + "/err_" + tag;
  int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
  dup2(fd, 2);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
static void flush_stats(long idx) {
  g_sh->evaluations++;
  for (auto& s : g_labels) {
    while (g_sh->nlabel_lock.exchange(1)) usleep(10);
    int i = 0;
    for (; i < g_sh->nlabels; i++) if (s == g_sh->labels[i].name) break;
    if (i == g_sh->nlabels && i < MAXLABEL) { strncpy(g_sh->labels[i].name, s.c_str(), 63); g_sh->nlabels++; }
    if (i < MAXLABEL) g_sh->labels[i].count++;
    g_sh->nlabel_lock.store(0);
  }
  if (g_nontrivial) {
    g_sh->nontriv++;
    uint64_t h = 88172645463325252ull;
    for (size_t i = 0; i < g_slot->n; i++) h = mix(h ^ (g_slot->c[i] + 0x9E3779B97F4A7C15ull * (i + 1)));
    if (idx >= 0 && idx < g_ncases) g_hash[idx] = h ? h : 1;
    if (!g_desc.empty() && g_sh->nsamples < 8 && idx % 7 == 0) {
      int k = g_sh->nsamples++;
      if (k < 8) strncpy(g_sh->samples[k], g_desc.c_str(), sizeof g_sh->samples[k] - 1);
    }
  }
}

struct Outcome { bool failed; std::string msg, desc, kind; Choices c; };
static std::string slurp(const std::string& p, size_t max = 1 << 20) {
  std::string s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s;
  char b[4096]; size_t n; while (s.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}
static std::string crash_text(int st, const std::string& err) {
  std::string r;
  size_t p = err.find("SUMMARY:");
  if (p != std::string::npos) {
    // what, and the innermost frames
    size_t q = err.find("ERROR:");
    if (q != std::string::npos) { std::string l = err.substr(q, err.find('\n', q) - q); size_t a = l.find(" on address"); r = l.substr(0, a); }
    int n = 0; size_t at = q == std::string::npos ? 0 : q;
    while (n < 3 && (at = err.find(" in ", at)) != std::string::npos) { size_t e = err.find('\n', at); r += (n ? " < " : " at ") + err.substr(at + 4, e - at - 4); at = e; n++; }
  } else if (WIFSIGNALED(st)) r = std::string("killed by signal ") + strsignal(WTERMSIG(st));
  else r = "worker ended with status " + std::to_string(WEXITSTATUS(st));
  return r;
}
static Slot* new_slot() {
  void* p = mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return (Slot*)p;
}
static Outcome outcome_of(Slot* s, int st, const std::string& tag) {
  Outcome o; o.failed = false;
  if (s->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.failed = true;
  if (s->status == 2) { o.msg = s->msg; o.kind = "property"; }
  else { o.msg = crash_text(st, slurp(g_scratch + "/err_" + tag)); o.kind = "crash"; }
  o.desc = s->desc;
  o.c.assign(s->c, s->c + s->n);
  return o;
}

static std::string g_selfpath;
// runs the given cases in one fresh process
static Outcome run_list(const std::vector<Choices>& list, const std::string& tag, bool verbose = false) {
  static std::map<std::string, Slot*> slots;
  Slot*& s = slots[tag]; if (!s) s = new_slot();
  s->status = 0; s->n = 0; s->msg[0] = s->desc[0] = 0; s->idx = 0;
  pid_t pid = fork();
  if (pid == 0) {
    g_slot = s; worker_setup(tag.c_str());
    for (size_t i = 0; i < list.size(); i++) { s->idx = (long)i; if (!run_case(&list[i], 0)) _exit(0); }
    s->status = 1; _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  if (verbose) { std::string e = slurp(g_scratch + "/err_" + tag); fwrite(e.data(), 1, e.size(), stderr); }
  return outcome_of(s, st, tag);
}

// ---- shrinking ---------------------------------------------------------------------
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_shrink_until;
static int g_jobs = 8;
// tries candidates (possibly in parallel); index of the first that fails, or -1
static int first_failing(const std::vector<std::vector<Choices>>& cand, Outcome* out) {
  for (size_t base = 0; base < cand.size(); base += g_jobs) {
    if (now() > g_shrink_until) return -1;
    size_t k = std::min(cand.size() - base, (size_t)g_jobs);
    std::vector<pid_t> pids(k); static std::vector<Slot*> slots;
    while (slots.size() < k) slots.push_back(new_slot());
    for (size_t i = 0; i < k; i++) {
      Slot* s = slots[i]; s->status = 0; s->n = 0; s->msg[0] = s->desc[0] = 0;
      std::string tag = "s" + std::to_string(i);
      pids[i] = fork();
      if (pids[i] == 0) {
        g_slot = s; g_cpu_limit = 40; worker_setup(tag.c_str());
        for (auto& c : cand[base + i]) if (!run_case(&c, 0)) _exit(0);
        s->status = 1; _exit(0);
      }
    }
    int res = -1;
    for (size_t i = 0; i < k; i++) {
      int st; waitpid(pids[i], &st, 0);
      Outcome o = outcome_of(slots[i], st, "s" + std::to_string(i));
      if (o.failed && res < 0) { res = (int)(base + i); *out = o; }
    }
    if (res >= 0) return res;
  }
  return -1;
}
static bool smaller(const Choices& a, const Choices& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }
static void shrink(std::vector<Choices>& list, Outcome& best) {
  g_shrink_until = now() + 60;
  Outcome o;
  // drop whole cases
  for (size_t step = list.size() / 2; step >= 1 && list.size() > 1; step /= 2) {
    for (size_t i = 0; i + step < list.size();) {
      std::vector<Choices> c(list); c.erase(c.begin() + i, c.begin() + i + step);
      std::vector<std::vector<Choices>> cand{c};
      if (first_failing(cand, &o) == 0) { list = c; best = o; } else i += step;
    }
  }
  for (size_t li = list.size(); li-- > 0;) {
    bool progress = true;
    while (progress && now() < g_shrink_until) {
      progress = false;
      Choices& cur = list[li];
      std::vector<Choices> cand;
      auto add = [&](const Choices& c) { if (smaller(c, cur)) cand.push_back(c); };
      // trailing zeros are implied
      { Choices c(cur); while (!c.empty() && c.back() == 0) c.pop_back(); add(c); }
      for (size_t len = cur.size() / 2; len >= 1; len = len > 8 ? len / 2 : len - 1) {
        size_t stride = std::max<size_t>(1, len / 2);
        if (cur.size() / stride > 200) stride = cur.size() / 200 + 1;
        for (size_t i = 0; i + len <= cur.size(); i += stride) { Choices c(cur); c.erase(c.begin() + i, c.begin() + i + len); add(c); }
      }
      size_t m = std::min<size_t>(cur.size(), 300);
      for (size_t i = 0; i < m; i++) if (cur[i]) { Choices c(cur); c[i] = 0; add(c); }
      for (size_t i = 0; i < m; i++) if (cur[i] > 1) { Choices c(cur); c[i] /= 2; add(c); }
      for (size_t i = 0; i < m; i++) if (cur[i] > 0) { Choices c(cur); c[i]--; add(c); }
      std::vector<std::vector<Choices>> lists;
      for (auto& c : cand) { auto l = list; l[li] = c; lists.push_back(l); }
      int k = first_failing(lists, &o);
      if (k >= 0) { list = lists[k]; best = o; progress = true; if (list.size() == 1 && smaller(o.c, list[0])) list[0] = o.c; }
    }
  }
}

// ---- evidence -------------------------------------------------------------------------
static std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r + "\"";
}

#ifndef PBT_FUZZ
static void rmtree(const std::string& d) {
  DIR* dir = opendir(d.c_str()); if (!dir) return;
  while (struct dirent* e = readdir(dir)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
  }
  closedir(dir); rmdir(d.c_str());
}
static int save_replay(const std::string& path, const std::vector<Choices>& list, const Outcome& o) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) return -1;
  fprintf(f, "property %s\n", property_under_test.id);
  for (auto& c : list) { fprintf(f, "case %zu", c.size()); for (uint64_t v : c) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); }
  std::string d = o.desc, m = o.msg;
  for (auto& ch : d) if (ch == '\n') ch = ' ';
  for (auto& ch : m) if (ch == '\n') ch = ' ';
  fprintf(f, "# input: %s\n# observed: %s\n", d.c_str(), m.c_str());
  fclose(f); return 0;
}
static std::vector<Choices> load_replay(const char* path) {
  std::vector<Choices> l; FILE* f = fopen(path, "r"); if (!f) { perror(path); _exit(2); }
  char w[64];
  while (fscanf(f, "%63s", w) == 1) {
    if (!strcmp(w, "case")) { size_t n; if (fscanf(f, "%zu", &n) != 1) break; Choices c(n); for (auto& v : c) { unsigned long long x; if (fscanf(f, "%llu", &x) != 1) x = 0; v = x; } l.push_back(c); }
    else if (w[0] == '#') { int ch; while ((ch = fgetc(f)) != EOF && ch != '\n') {} }
  }
  fclose(f); return l;
}

// a failure counts when it comes back three times in at most six runs: what depends on the schedule may need several
static void confirm(const std::vector<Choices>& list, int& hits, Outcome& best) {
  for (int r = 0; r < 6 && hits < 3 && r - hits < 4; r++) { Outcome o = run_list(list, "c"); if (o.failed) { hits++; best = o; } }
}

static int real_main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  std::string tier = a.count("--tier") ? a["--tier"] : "quick";
  uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
  double cap = a.count("--cap") ? atof(a["--cap"].c_str()) : (tier == "quick" ? 240 : 560);
  double t0 = now(); 
  if (a.count("--t0")) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t0 -= t.tv_sec + t.tv_nsec * 1e-9 - atof(a["--t0"].c_str()); }
  g_jobs = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8;
  g_scratch = a.count("--scratch") ? a["--scratch"] : "/tmp";
  g_scratch += "/pbt." + std::to_string(getpid());
  mkdir(g_scratch.c_str(), 0700);
  Property& P = property_under_test;
  g_ncases = tier == "quick" ? P.quick_cases : P.thorough_cases;
  if (a.count("--cases")) g_ncases = atol(a["--cases"].c_str());
  long batch = P.batch > 0 ? P.batch : 100;
  g_sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_hash = (uint64_t*)mmap(NULL, (g_ncases + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  signal(SIGPROF, SIG_IGN);

  if (a.count("--replay")) {
    auto l = load_replay(a["--replay"].c_str());
    Outcome o = run_list(l, "r", true);
    for (int r = 0; r < 9 && !o.failed; r++) o = run_list(l, "r", false);
    rmtree(g_scratch);
    printf("%s\ninput: %s\n%s\n", o.failed ? "FAILS" : "holds", o.desc.c_str(), o.msg.c_str());
    return o.failed ? 1 : 0;
  }

  // workers take batches in order; the failing case with the lowest index wins
  struct W { pid_t pid; Slot* s; long from, to; };
  std::vector<W> ws(g_jobs);
  for (auto& w : ws) { w.pid = 0; w.s = new_slot(); }
  long next = 0; long fail_idx = -1, fail_from = -1; Outcome first; bool capped = false; int flaky = 0;
  auto launch = [&](int i) {
    W& w = ws[i]; w.from = next; w.to = std::min(next + batch, g_ncases); next = w.to;
    w.s->status = 0; w.s->n = 0; w.s->msg[0] = w.s->desc[0] = 0;
    fflush(stdout);
    w.pid = fork();
    if (w.pid == 0) {
      g_slot = w.s; worker_setup(std::to_string(i).c_str());
      for (long k = w.from; k < w.to; k++) { w.s->idx = k; if (!run_case(NULL, case_seed(seed, k))) { g_sh->evaluations++; _exit(0); } flush_stats(k); }
      w.s->status = 1; _exit(0);
    }
  };
  std::vector<Choices> list; Outcome best; bool violated = false;
  while (true) {
    bool any = false;
    for (int i = 0; i < g_jobs; i++) {
      if (!ws[i].pid && fail_idx < 0 && next < g_ncases) {
        if (now() - t0 > cap) { capped = true; next = g_ncases; continue; }
        launch(i);
      }
      any |= ws[i].pid != 0;
    }
    if (!any) {
      if (fail_idx < 0) break;
      // confirm: alone, or together with the cases that ran before it in the same process
      list.assign(1, first.c);
      int hits = 0;
      confirm(list, hits, best);
      if (hits < 3 && first.c.size() < MAXCHOICE) {
        // reconstruct the choices of the earlier cases of the batch
        std::vector<Choices> pre;
        Slot* s = new_slot();
        for (long k = fail_from; k < fail_idx; k++) {
          pid_t pid = fork();
          if (pid == 0) { g_slot = s; worker_setup("p"); run_case(NULL, case_seed(seed, k)); _exit(0); }
          int st; waitpid(pid, &st, 0);
          pre.emplace_back(s->c, s->c + s->n);
        }
        pre.push_back(first.c); list = pre; hits = 0;
        confirm(list, hits, best);
      }
      if (hits == 3) { violated = true; break; }
      fprintf(stderr, "note: case %ld failed once and not again (%s)\n", fail_idx, first.msg.c_str());
      if (++flaky > 20) break;
      next = fail_idx + 1; fail_idx = -1;
      continue;
    }
    int st; pid_t p = waitpid(-1, &st, 0);
    for (int i = 0; i < g_jobs; i++) if (ws[i].pid == p) {
      ws[i].pid = 0;
      Outcome o = outcome_of(ws[i].s, st, std::to_string(i));
      if (o.failed && (fail_idx < 0 || ws[i].s->idx < fail_idx)) { fail_idx = ws[i].s->idx; fail_from = ws[i].from; first = o; }
    }
  }
  std::string replay;
  if (violated) {
    if (!a.count("--no-shrink")) shrink(list, best);
    std::string dir = a.count("--replaydir") ? a["--replaydir"] : ".";
    mkdir(dir.c_str(), 0755);
    replay = dir + "/" + P.id + "-" + tier + "-" + std::to_string(seed) + ".replay";
    save_replay(replay, list, best);
  }
  std::set<uint64_t> distinct;
  for (long i = 0; i < g_ncases; i++) if (g_hash[i]) distinct.insert(g_hash[i]);
  double wall = now() - t0;
  if (a.count("--evidence")) {
    FILE* f = fopen(a["--evidence"].c_str(), "w");
    if (!f) { perror("evidence"); return 3; }
    fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", json(P.id).c_str(), json(tier).c_str(), (unsigned long long)seed);
    fprintf(f, "  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %ld,\n  \"cases_planned\": %ld,\n  \"stopped_by_time\": %s,\n", (long)g_sh->evaluations, distinct.size(), (long)g_sh->discarded, g_ncases, capped ? "true" : "false");
    fprintf(f, "  \"rule\": %s,\n  \"classes\": {", json(P.rule).c_str());
    std::vector<std::pair<std::string, long>> ls;
    for (int i = 0; i < g_sh->nlabels; i++) ls.push_back({g_sh->labels[i].name, (long)g_sh->labels[i].count});
    std::sort(ls.begin(), ls.end());
    for (size_t i = 0; i < ls.size(); i++) fprintf(f, "%s\n   %s: %ld", i ? "," : "", json(ls[i].first).c_str(), ls[i].second);
    fprintf(f, "\n  },\n");
    if (a.count("--fuzz-note")) fprintf(f, "  \"coverage_guided\": %s,\n", json(a["--fuzz-note"]).c_str());
    fprintf(f, "  \"samples\": [");
    int ns = std::min((int)g_sh->nsamples, 8);
    for (int i = 0; i < ns; i++) fprintf(f, "%s\n   %s", i ? "," : "", json(g_sh->samples[i]).c_str());
    fprintf(f, "\n  ]\n },\n \"assumptions\": [");
    for (size_t i = 0; i < P.assumptions.size(); i++) fprintf(f, "%s\n  %s", i ? "," : "", json(P.assumptions[i]).c_str());
    fprintf(f, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violated ? 1 : 0);
    fclose(f);
  }
  rmtree(g_scratch);
  printf("%s: %ld cases, %zu distinct non-trivial, %.1f s, seed %llu%s\n", P.id, (long)g_sh->evaluations, distinct.size(), wall, (unsigned long long)seed, capped ? " (stopped by the time cap)" : "");
  if (violated) {
    printf("input: %s\nobserved: %s\nVIOLATION property=%s replay=%s\n", best.desc.c_str(), best.msg.c_str(), P.id, replay.c_str());
    return 1;
  }
  return 0;
}
#endif
}  // namespace pbt

#ifndef PBT_FUZZ
int main(int argc, char** argv) { int r = pbt::real_main(argc, argv); fflush(stdout); _exit(r); }
#else
// the same property under libFuzzer: the input bytes are the choices
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  using namespace pbt;
  g_slot = new_slot();
  g_sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const char* d = getenv("PBT_SCRATCH");
  if (!d || chdir(d)) _exit(98);
  g_outfd = (int)syscall(SYS_memfd_create, "out", 0);
  dup2(g_outfd, 1);
  return 0;
}
namespace pbt { void pbt_dump() {
  const char* p = getenv("PBT_FAILURE"); if (!p) return;
  FILE* f = fopen(p, "w"); if (!f) return;
  fprintf(f, "property %s\ncase %zu", property_under_test.id, (size_t)g_slot->n);
  for (size_t i = 0; i < g_slot->n; i++) fprintf(f, " %llu", (unsigned long long)g_slot->c[i]);
  fprintf(f, "\n"); fclose(f);
} }
#include <sanitizer/common_interface_defs.h>
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  using namespace pbt;
  static bool once; if (!once) { once = true; __sanitizer_set_death_callback(pbt_dump); }
  static const uint8_t none = 0; g_in_case = true;
  g_fz = data ? data : &none; g_fzn = size; g_slot->n = 0; g_replaying = false; g_desc.clear(); g_labels.clear(); g_time = 1600000000;
  start_capture();
  try { run_body(); }
  catch (Discard&) {}
  catch (Fail& f) { pbt_dump(); fprintf(stderr, "PBT-FAIL %s\n", f.msg.c_str()); abort(); }
  g_in_case = false;
  return 0;
}
#endif
