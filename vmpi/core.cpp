// Fibers, per-rank memory images, scheduler, choice sequence, interposed libc calls.
#include "core.hpp"
#include <cstdarg>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <exception>

extern "C" {
struct __cxa_eh_globals_v { void* caught; unsigned uncaught; };
}
namespace __cxxabiv1 { extern "C" struct __cxa_eh_globals* __cxa_get_globals() noexcept; }

asm(R"(
.text
.globl vmpi_switch
.type vmpi_switch,@function
vmpi_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vmpi_switch,.-vmpi_switch
)");
extern "C" void vmpi_switch(void** save, void* load);

namespace vmpi {
World W;
static const size_t STACK = 4u << 20;
static std::vector<char*> stackPool;

struct Region { char* p; size_t n; };
static std::vector<Region> regions;   // data segment parts of the executable
static Region tlsReg{nullptr, 0};
static std::vector<char> tlsInit;
static size_t imgSize = 0;
static std::vector<char> mainImg, mainTls, pristine, pristineTls;
static int forcedNext = -1;
static int loaded = -1;               // whose image is in place (-1: main)

static int phdrCb(struct dl_phdr_info* i, size_t, void* d) {
  bool* first = (bool*)d;
  if (!*first) return 1;
  *first = false;
  char* relLo = nullptr; char* relHi = nullptr;
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    auto& ph = i->dlpi_phdr[k];
    if (ph.p_type == PT_GNU_RELRO) { relLo = (char*)i->dlpi_addr + ph.p_vaddr; relHi = relLo + ph.p_memsz; }
    if (ph.p_type == PT_TLS) { tlsReg.p = (char*)i->dlpi_tls_data; tlsReg.n = ph.p_memsz; tlsInit.assign(ph.p_memsz, 0); memcpy(tlsInit.data(), (char*)i->dlpi_addr + ph.p_vaddr, ph.p_filesz); }
  }
  long pg = sysconf(_SC_PAGESIZE);
  if (relHi) relHi = (char*)(((uintptr_t)relHi + pg - 1) / pg * pg);
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    auto& ph = i->dlpi_phdr[k];
    if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
      char* lo = (char*)i->dlpi_addr + ph.p_vaddr; char* hi = lo + ph.p_memsz;
      if (relLo && relLo <= lo && relHi > lo) lo = std::min(hi, relHi);
      if (hi > lo) regions.push_back({lo, (size_t)(hi - lo)});
    }
  }
  return 1;
}
static void initRegions() {
  static bool done = false;
  if (done) return;
  done = true;
  bool first = true;
  dl_iterate_phdr(phdrCb, &first);
  for (auto& r : regions) imgSize += r.n;
  if (getenv("VMPI_DEBUG")) fprintf(stderr, "vmpi: image %zu bytes, tls %zu\n", imgSize, tlsReg.n);
}
static void saveImg(std::vector<char>& im, std::vector<char>& tl) {
  im.resize(imgSize); tl.resize(tlsReg.n);
  size_t o = 0;
  for (auto& r : regions) { memcpy(im.data() + o, r.p, r.n); o += r.n; }
  if (tlsReg.n) memcpy(tl.data(), tlsReg.p, tlsReg.n);
}
static void loadImg(const std::vector<char>& im, const std::vector<char>& tl) {
  size_t o = 0;
  for (auto& r : regions) { memcpy(r.p, im.data() + o, r.n); o += r.n; }
  if (tlsReg.n) memcpy(tlsReg.p, tl.data(), tlsReg.n);
}
static void useImage(int who) {
  if (loaded == who) return;
  if (loaded == -1) saveImg(mainImg, mainTls); else saveImg(W.r[loaded]->img, W.r[loaded]->tls);
  if (who == -1) loadImg(mainImg, mainTls); else loadImg(W.r[who]->img, W.r[who]->tls);
  loaded = who;
}
bool tlsHas(uintptr_t a) { return tlsReg.n && a >= (uintptr_t)tlsReg.p && a < (uintptr_t)tlsReg.p + tlsReg.n; }
void tlsSave(std::vector<char>& v) { v.resize(tlsReg.n); if (tlsReg.n) memcpy(v.data(), tlsReg.p, tlsReg.n); }
void tlsLoad(const std::vector<char>& v) { if (tlsReg.n) memcpy(tlsReg.p, v.data(), tlsReg.n); }
const std::vector<char>& tlsTemplate() { return tlsInit; }
// address of rank's byte p while another image may be in place
void* xlate(int rank, const void* p, size_t) {
  if (rank == loaded) return (void*)p;
  char* c = (char*)p;
  size_t o = 0;
  for (auto& r : regions) {
    if (c >= r.p && c < r.p + r.n) return W.r[rank]->img.data() + o + (c - r.p);
    o += r.n;
  }
  if (tlsReg.n && c >= tlsReg.p && c < tlsReg.p + tlsReg.n) return W.r[rank]->tls.data() + (c - tlsReg.p);
  return c;
}

std::string sfmt(const char* f, ...) {
  char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
RankT& me() { return *W.r[W.cur]; }

void ehSave(void** e) { auto* g = (__cxa_eh_globals_v*)__cxxabiv1::__cxa_get_globals(); e[0] = g->caught; e[1] = (void*)(uintptr_t)g->uncaught; }
void ehLoad(void** e) { auto* g = (__cxa_eh_globals_v*)__cxxabiv1::__cxa_get_globals(); g->caught = e[0]; g->uncaught = (unsigned)(uintptr_t)e[1]; }

static void toSched() {
  RankT& r = me();
  ehSave(r.eh);
  vmpi_switch(&r.ctx.sp, W.sched.sp);
  ehLoad(r.eh);
}
void vfail(const std::string& kind, const std::string& msg) {
  if (!W.active) { fprintf(stderr, "vmpi fail outside run: %s %s\n", kind.c_str(), msg.c_str()); ::_exit(99); }
  if (W.res.ok) { W.res.ok = false; W.res.kind = kind; W.res.msg = W.cur >= 0 ? sfmt("rank %d: ", W.cur) + msg : msg; }
  W.aborted = true;
  if (W.cur >= 0) { me().st = DONE; toSched(); }
  abort();
}
void fail(const std::string& kind, const std::string& msg) { vfail(kind, msg); }
int rank() { return W.active ? W.cur : -1; }
bool inRun() { return W.active && W.cur >= 0; }
void expectExit(bool on) { W.expectExit = on; }
double now() { return W.clock; }
void progress() { ++W.event; }
void observe(uint64_t v) {
  v ^= (uint64_t)(W.cur + 1) * 0x9E3779B97F4A7C15ull; v ^= v >> 31; v *= 0xBF58476D1CE4E5B9ull; v ^= v >> 29; v *= 0x94D049BB133111EBull;
  W.outcome += v ^ (v >> 32);
}

static void schedFail(const std::string& kind, const std::string& msg) {
  if (W.res.ok) { W.res.ok = false; W.res.kind = kind; W.res.msg = msg; }
  W.aborted = true;
}

int chooseK(char kind, int n, int cost) {
  if (n <= 1) return 0;
  int c = 0;
  if (W.pos < W.prefix.size()) {
    c = W.prefix[W.pos];
    if (c < 0 || c >= n) {
      schedFail("replay-divergence", sfmt("choice %zu: %d not in [0,%d)", W.pos, c, n));
      c = 0;
    }
  }
  ++W.pos;
  W.res.choices.push_back(c); W.res.widths.push_back(n); W.res.costs.push_back(cost); W.res.kinds.push_back(kind);
  return c;
}
int choose(int n, int cost) { return chooseK('u', n, cost); }

static bool ready(int i) {
  RankT& r = *W.r[i];
  if (r.st == READY) return true;
  if (r.st == BLOCKED && r.pred && r.pred()) { r.st = READY; r.pred = nullptr; return true; }
  return false;
}
void block(const std::function<bool()>& p, const std::string& why) {
  if (p()) return;
  RankT& r = me();
  r.pred = p; r.why = why; r.st = BLOCKED;
  toSched();
}
void blockUntil(const std::function<bool()>& p, const std::string& why) { block(p, why); }
void spinYield(const std::string& why) {
  RankT& r = me();
  r.why = why; r.st = SPINNING; r.spinSeen = W.event;
  toSched();
}
void spin(const char* why) { if (inRun()) { W.clock += 0.2; spinYield(why); } }
void point(unsigned mask, const char* why) {
  if (!(W.o.preemptAt & mask) || !inRun()) return;
  // the running rank plus all other ready ranks, the running one first
  std::vector<int> opt{W.cur};
  for (int i = 0; i < (int)W.r.size(); ++i)
    if (i != W.cur && (ready(i) || (W.r[i]->st == SPINNING && W.r[i]->spinSeen != W.event))) opt.push_back(i);
  if (opt.size() < 2) return;
  int c = chooseK('s', (int)opt.size(), 1);
  if (c == 0) return;
  int to = opt[c];
  W.r[to]->st = READY;
  me().st = READY; me().why = why;
  W.last = to; 
  // ask the scheduler to run `to` next
  W.r[to]->why = "preempting";
  forcedNext = to;
  toSched();
}
void yieldPoint(const char* why) { point(PT_USER, why); }

static void rankMain() {
  int id = W.cur;
  try {
    (*W.body)(id);
  } catch (std::exception& e) {
    schedFail("exception", sfmt("rank %d: uncaught exception: %s", id, e.what()));
  } catch (...) {
    schedFail("exception", sfmt("rank %d: uncaught exception", id));
  }
  RankT& r = *W.r[id];
  r.st = DONE;
  for (;;) toSched();
}
extern "C" void vmpi_tramp() { vmpi::rankMain(); abort(); }

static std::vector<char*> ompPool;
static char* getStack(size_t i, std::vector<char*>& pool) {
  while (pool.size() <= i) {
    char* p = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); ::_exit(98); }
    mprotect(p, 4096, PROT_NONE);
    pool.push_back(p);
  }
  return pool[i];
}
void* makeStack(char* st, void (*fn)()) {
  uintptr_t top = (uintptr_t)st + STACK;
  top &= ~15ull;
  void** sp = (void**)top;
  *--sp = nullptr;            // alignment: at function entry rsp % 16 == 8
  *--sp = (void*)fn;
  for (int k = 0; k < 6; ++k) *--sp = nullptr;
  return sp;
}
char* ompStack(size_t i) { return getStack(i, ompPool); }

static void resume(int i) {
  RankT& r = *W.r[i];
  useImage(i);
  W.cur = i; W.last = i; r.st = RUNNING;
  ++W.res.switches;
  void* eh[2]; ehSave(eh);
  if (!r.started) {
    r.started = true;
    void* z[2] = {nullptr, nullptr}; ehLoad(z);
    r.ctx.sp = makeStack(r.stack, vmpi_tramp);
  }
  vmpi_switch(&W.sched.sp, r.ctx.sp);
  ehLoad(eh);
  W.cur = -1;
}

Result run(const Options& o, const std::function<void(int)>& body, const std::vector<int>& prefix) {
  initRegions();
  W.active = true; W.o = o; W.body = &body; W.prefix = prefix; W.pos = 0; W.res = Result(); W.aborted = false;
  W.event = 0; W.clock = 1000.0; W.outcome = 0; W.last = -1; W.cur = -1; W.expectExit = false; W.ompRegions = 0;
  forcedNext = -1;
  resetMpi();
  saveImg(pristine, pristineTls);
  W.r.clear();
  for (int i = 0; i < o.nranks; ++i) {
    auto r = std::make_unique<RankT>();
    r->id = i; r->stack = getStack(i, stackPool); r->img = pristine; r->tls = pristineTls;
    W.r.push_back(std::move(r));
  }
  int n = o.nranks; int idle = 0; 
  while (!W.aborted) {
    if (++W.res.steps > o.maxSteps) { schedFail("horizon", "step horizon exceeded (no termination)"); break; }
    int pick = -1;
    if (forcedNext >= 0) { pick = forcedNext; forcedNext = -1; }
    else {
      std::vector<int> rd;
      for (int k = 1; k <= n; ++k) {
        int i = o.reverseSched ? ((W.last - k) % n + n) % n : (W.last + k + n) % n;
        if (W.last < 0) i = o.reverseSched ? n - k : k - 1;
        if (ready(i)) { rd.push_back(i); if (!o.schedChoice) break; }
      }
      if (!rd.empty()) {
        int c = rd.size() > 1 ? chooseK('s', (int)rd.size(), 1) : 0;
        pick = rd[c];
      }
    }
    if (pick >= 0) { long ev = W.event; resume(pick); if (W.event != ev) idle = 0; continue; }
    if (quiescentWild()) { ++W.event; idle = 0; continue; }
    // spinners
    std::vector<int> sp, all;
    for (int i = 0; i < n; ++i) if (W.r[i]->st == SPINNING) { all.push_back(i); if (W.r[i]->spinSeen != W.event) sp.push_back(i); }
    if (!sp.empty()) {
      for (int i : sp) W.r[i]->st = READY;
      continue;
    }
    if (!all.empty()) {
      if (++idle > o.idleRounds) {
        std::string m = "no progress possible (all ranks polling or blocked):";
        for (int i = 0; i < n; ++i) m += sfmt(" [%d] %s;", i, W.r[i]->st == DONE ? "done" : W.r[i]->why.c_str());
        schedFail("livelock", m); break;
      }
      W.clock += 1.0;
      for (int i : all) W.r[i]->st = READY;
      continue;
    }
    bool allDone = true;
    for (int i = 0; i < n; ++i) if (W.r[i]->st != DONE) allDone = false;
    if (allDone) break;
    std::string m = "deadlock:";
    for (int i = 0; i < n; ++i) m += sfmt(" [%d] %s;", i, W.r[i]->st == DONE ? "done" : W.r[i]->why.c_str());
    schedFail("deadlock", m);
  }
  useImage(-1);
  loadImg(pristine, pristineTls);
  if (!W.aborted) finishMpi();
  if (W.res.ok && W.pos < W.prefix.size()) { W.res.ok = false; W.res.kind = "replay-divergence"; W.res.msg = "choice list longer than execution"; }
  W.res.outcome = W.outcome;
  W.active = false; W.cur = -1;
  return W.res;
}

bool explore(const Options& o, const std::function<void(int)>& body, ExploreStats& st, Result& bad,
             const std::function<std::string(const Result&)>& after,
             const std::function<void(const std::vector<int>&)>& before) {
  // iterative DFS over choice prefixes, each with accumulated cost
  struct Node { std::vector<int> prefix; int cost; };
  std::vector<Node> stack{{{}, 0}};
  long n0 = st.executions;
  while (!stack.empty()) {
    Node nd = std::move(stack.back()); stack.pop_back();
    if (st.executions - n0 >= o.maxExec) { st.capped = true; return true; }
    if (before) before(nd.prefix);
    Result r = run(o, body, nd.prefix);
    ++st.executions; st.choicePoints += (long)r.choices.size() - (long)nd.prefix.size(); st.transitions += r.switches + r.matches + r.colls;
    ++st.treeNodes;
    if (r.ok && after) { std::string e = after(r); if (!e.empty()) { r.ok = false; r.kind = "property"; r.msg = e; } }
    if (!r.ok) {
      // replay before report
      Result r2 = run(o, body, r.choices);
      if (r2.ok && after) { std::string e = after(r2); if (!e.empty()) { r2.ok = false; r2.kind = "property"; r2.msg = e; } }
      bad = r;
      if (r2.ok) bad.msg += " (NOT REPRODUCED)";
      return false;
    }
    for (size_t i = r.choices.size(); i-- > nd.prefix.size();) {
      int c = nd.cost + r.costs[i];
      if (c > o.bound) continue;
      for (int alt = r.widths[i] - 1; alt >= 1; --alt) {
        Node m; m.cost = c; m.prefix.assign(r.choices.begin(), r.choices.begin() + i); m.prefix.push_back(alt);
        stack.push_back(std::move(m));
      }
    }
  }
  return true;
}
long ompRegions() { return W.ompRegions; }
}  // namespace vmpi

// ------------------------------------------------------------------ interposed libc
using namespace vmpi;
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static bool asleep(const char* w, double s) {
  if (!inRun()) return false;
  W.clock += s; spinYield(w); return true;
}
extern "C" {
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (asleep("nanosleep", t->tv_sec + 1e-9 * t->tv_nsec)) return 0;
  static auto f = next<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  return f(t, rem);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem) {
  if (asleep("clock_nanosleep", fl ? 0.2 : t->tv_sec + 1e-9 * t->tv_nsec)) return 0;
  static auto f = next<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
  return f(c, fl, t, rem);
}
int usleep(useconds_t u) {
  if (asleep("usleep", 1e-6 * u)) return 0;
  struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  if (asleep("sleep", s)) return 0;
  struct timespec t{(time_t)s, 0};
  nanosleep(&t, nullptr); return 0;
}
int sched_yield(void) { if (asleep("sched_yield", 1e-6)) return 0; return 0; }
int clock_gettime(clockid_t c, struct timespec* t) {
  if (inRun()) { W.clock += 1e-6; t->tv_sec = (time_t)W.clock; t->tv_nsec = (long)((W.clock - (double)t->tv_sec) * 1e9); return 0; }
  static auto f = next<int (*)(clockid_t, struct timespec*)>("clock_gettime");
  return f(c, t);
}
int gettimeofday(struct timeval* __restrict t, void* __restrict z) {
  if (inRun()) { W.clock += 1e-6; t->tv_sec = (time_t)W.clock; t->tv_usec = (long)((W.clock - (double)t->tv_sec) * 1e6); return 0; }
  static auto f = next<int (*)(struct timeval*, void*)>("gettimeofday");
  return f(t, z);
}
void exit(int c) {
  if (inRun()) { if (W.expectExit) vfail("expected-exit", sfmt("exit(%d)", c)); vfail("exit", sfmt("process exits with code %d", c)); }
  static auto f = next<void (*)(int)>("exit");
  f(c); ::_exit(c);
}
void abort(void) {
  if (inRun()) { if (W.expectExit) vfail("expected-exit", "abort"); vfail("abort", "abort() called"); }
  static auto f = next<void (*)(void)>("abort");
  f(); ::_exit(134);
}
}
