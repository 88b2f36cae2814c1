// OpenMP runtime on fibers: the members of a team run their shares one after another in an order the
// explorer decides; thread-local storage is exchanged per member.
#include "core.hpp"
#include <algorithm>
#include <exception>
extern "C" void vmpi_switch(void** save, void* load);
namespace vmpi {
void tlsSave(std::vector<char>&);
void tlsLoad(const std::vector<char>&);
const std::vector<char>& tlsTemplate();
void* makeStack(char* st, void (*fn)());
char* ompStack(size_t i);
void ehSave(void**);
void ehLoad(void**);

struct OThread { int id; Ctx ctx; int st = 0; /*0 new,1 runnable,2 barrier,3 done*/ std::vector<char> tls; long ws = 0; bool started = false; void* eh[2] = {nullptr, nullptr}; int inCrit = 0; };
struct WS { bool init = false; long next, end, incr, chunk; bool single = false; unsigned long long unext, uend, uincr, uchunk; int sections = 0, nextSec = 1; };
struct Team {
  int n; void (*fn)(void*); void* data; std::vector<OThread> t; Ctx master; int cur = -1, real = -1; /* real: executing member, also inside nested regions */ std::map<long, WS> ws; Team* parent; int rank; long epoch = 0;
};
static std::map<int, Team*> teams;   // by rank
static Team* team() { if (!inRun()) return nullptr; auto it = teams.find(W.cur); return it == teams.end() ? nullptr : it->second; }
int ompTid() { Team* t = team(); return t ? t->cur : 0; }
int ompTeamSize() { Team* t = team(); return t ? t->n : 1; }
long ompEpoch() { Team* t = team(); return t ? t->epoch : 0; }
void raceRegion(bool begin);
void raceBarrier();
void raceLock(const void* l, bool acquire);

static void threadMain() {
  Team* T = team();
  int id = T->cur;
  try { T->fn(T->data); } catch (std::exception& e) { vfail("exception", sfmt("exception leaves a parallel region: %s", e.what())); } catch (...) { vfail("exception", "exception leaves a parallel region"); }
  T = team();
  T->t[id].st = 3;
  for (;;) { ehSave(T->t[id].eh); vmpi_switch(&T->t[id].ctx.sp, T->master.sp); }
}
extern "C" void vmpi_omp_tramp() { threadMain(); abort(); }
static void toMaster(Team* T) { auto& x = T->t[T->cur]; ehSave(x.eh); vmpi_switch(&x.ctx.sp, T->master.sp); ehLoad(x.eh); }

static void runTeam(void (*fn)(void*), void* data, unsigned nt) {
  Team* outer = team();
  int n = nt ? (int)nt : W.o.ompThreads;
  if (!inRun() || outer || n <= 1) {
    if (!inRun() || outer) {   // nested or outside: serial team of one
      if (outer) { int keepCur = outer->cur, keepN = outer->n; long ws = outer->t[keepCur].ws; std::map<long, WS> w; w.swap(outer->ws); outer->n = 1; outer->cur = 0; auto keepT0 = outer->t[0].ws; outer->t[0].ws = 0;
        fn(data);
        outer->t[0].ws = keepT0; outer->n = keepN; outer->cur = keepCur; outer->t[keepCur].ws = ws; outer->ws.swap(w); }
      else fn(data);
      return;
    }
    n = 1;
  }
  Team T; T.n = n; T.fn = fn; T.data = data; T.parent = nullptr; T.rank = W.cur; T.t.resize(n);
  teams[W.cur] = &T;
  if (n == 1) { T.cur = 0; T.t[0].id = 0; try { fn(data); } catch (...) { teams.erase(T.rank); throw; } teams.erase(W.cur); return; }
  ++W.ompRegions;
  raceRegion(true);
  auto& my = me();
  if ((int)my.ompTls.size() < n) my.ompTls.resize(n);
  std::vector<char> base; tlsSave(base);
  for (int i = 0; i < n; ++i) { T.t[i].id = i; T.t[i].tls = i == 0 ? base : (my.ompTls[i].empty() ? tlsTemplate() : my.ompTls[i]); }
  int last = W.o.ompOrder == 1 ? n : -1;
  for (;;) {
    std::vector<int> run; bool anyBarrier = false;
    for (int k = 1; k <= n; ++k) { int i = W.o.ompOrder == 1 ? ((last - k) % n + n) % n : (last + k + n) % n; if (W.o.ompOrder != 2 && W.o.ompOrder != 1) { i = k - 1; } else if (W.o.ompOrder == 1) i = n - k; if (T.t[i].st <= 1) run.push_back(i); if (T.t[i].st == 2) anyBarrier = true; }
    if (run.empty()) {
      if (!anyBarrier) break;
      for (auto& x : T.t) { if (x.st == 3) vfail("omp-barrier", "a thread left the parallel region while others wait in a barrier"); }
      for (auto& x : T.t) x.st = 1;
      ++T.epoch; raceBarrier();
      continue;
    }
    int c = W.o.ompChoice ? chooseK('o', (int)run.size(), 1) : 0;
    int i = run[c]; last = i;
    auto& x = T.t[i];
    T.cur = T.real = i; x.st = 1;
    tlsLoad(x.tls);
    void* eh[2]; ehSave(eh);
    if (!x.started) { x.started = true; void* z[2] = {nullptr, nullptr}; ehLoad(z); x.ctx.sp = makeStack(ompStack((size_t)T.rank * 8 + i), vmpi_omp_tramp); }
    vmpi_switch(&T.master.sp, x.ctx.sp);
    T.real = -1;
    ehLoad(eh);
    tlsSave(x.tls);
  }
  for (int i = 1; i < n; ++i) my.ompTls[i] = T.t[i].tls;
  tlsLoad(T.t[0].tls);
  teams.erase(T.rank);
  raceRegion(false);
}
void ompReset() { teams.clear(); }
static WS& nextWS(bool& first) { Team* T = team(); long k = T->t[T->cur].ws++; auto& w = T->ws[k]; first = !w.init; w.init = true; return w; }
static WS& curWS() { Team* T = team(); return T->ws[T->t[T->cur].ws - 1]; }
static void maybeYield() { Team* T = team(); if (T && T->n > 1 && W.o.ompOrder == 2) { toMaster(T); } }
}  // namespace vmpi
using namespace vmpi;

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { runTeam(fn, data, n); }
void GOMP_barrier(void) { Team* T = team(); if (!T || T->n == 1) return; T->t[T->cur].st = 2; toMaster(T); }
bool GOMP_cancel(int, bool) { return false; }
void GOMP_critical_start(void) { raceLock((void*)1, true); }
void GOMP_critical_end(void) { raceLock((void*)1, false); }
void GOMP_critical_name_start(void** p) { raceLock(p, true); }
void GOMP_critical_name_end(void** p) { raceLock(p, false); }
void GOMP_atomic_start(void) { raceLock((void*)2, true); }
void GOMP_atomic_end(void) { raceLock((void*)2, false); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
bool GOMP_single_start(void) { bool first; if (!team()) return true; nextWS(first); return first; }
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int) {
  if (cpy) { std::vector<char> b(sz + al); char* a = (char*)(((uintptr_t)b.data() + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); } else fn(data);
}
static bool chunkNext(WS& w, long* s, long* e) {
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  *s = w.next; long st = w.chunk * w.incr; long x = w.next + st;
  if (w.incr > 0 ? x > w.end : x < w.end) x = w.end;
  *e = x; w.next = x; return true;
}
static bool loopStart(long s, long e, long i, long c, long* is, long* ie) {
  if (!team()) { *is = s; *ie = e; return i > 0 ? s < e : s > e; }
  bool first; WS& w = nextWS(first);
  if (first) { w.next = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; }
  return chunkNext(w, is, ie);
}
static bool loopNext(long* s, long* e) { if (!team()) return false; maybeYield(); return chunkNext(curWS(), s, e); }
static bool uchunkNext(WS& w, unsigned long long* s, unsigned long long* e) {
  if (w.unext >= w.uend) return false; *s = w.unext; unsigned long long x = w.unext + w.uchunk * w.uincr; if (x > w.uend) x = w.uend; *e = x; w.unext = x; return true;
}
static bool uloopStart(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) {
  if (!team()) { *is = s; *ie = e; return s < e; }
  bool first; WS& w = nextWS(first); if (first) { w.unext = s; w.uend = e; w.uincr = i; w.uchunk = c ? c : 1; } return uchunkNext(w, is, ie);
}
static bool uloopNext(unsigned long long* s, unsigned long long* e) { if (!team()) return false; maybeYield(); return uchunkNext(curWS(), s, e); }
#define LOOPS(K) \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); } \
  bool GOMP_loop_##K##_next(long* a, long* b) { return loopNext(a, b); } \
  bool GOMP_loop_ull_##K##_start(bool u, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return uloopStart(u, s, e, i, c, a, b); } \
  bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) { return uloopNext(a, b); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define LOOPR(K) \
  bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); } \
  bool GOMP_loop_##K##_next(long* a, long* b) { return loopNext(a, b); } \
  bool GOMP_loop_ull_##K##_start(bool u, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return uloopStart(u, s, e, i, 1, a, b); } \
  bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) { return uloopNext(a, b); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
void GOMP_loop_end_nowait(void) {}
// combined parallel loops: the outlined function calls *_next only
struct PL { void (*fn)(void*); void* d; long s, e, i, c; };
static void plBody(void* p) {
  PL* x = (PL*)p; Team* T = team();
  if (T) { bool first; WS& w = nextWS(first); if (first) { w.next = x->s; w.end = x->e; w.incr = x->i; w.chunk = x->c > 0 ? x->c : 1; } }
  x->fn(x->d);
}
static thread_local bool outsideDone;
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { (void)outsideDone; PL p{fn, d, s, e, i, c}; if (!inRun()) { fprintf(stderr, "parallel loop outside run\n"); _Exit(96); } runTeam(plBody, &p, n); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { PL p{fn, d, s, e, i, 1}; runTeam(plBody, &p, n); }
PLOOPR(runtime) PLOOPR(maybe_nonmonotonic_runtime) PLOOPR(nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) { if (!team()) return n ? 1 : 0; bool first; WS& w = nextWS(first); if (first) w.sections = n; return w.nextSec <= w.sections ? w.nextSec++ : 0; }
unsigned GOMP_sections_next(void) { if (!team()) return 0; maybeYield(); WS& w = curWS(); return w.nextSec <= w.sections ? w.nextSec++ : 0; }
struct PS { void (*fn)(void*); void* d; unsigned n; };
static void psBody(void* p) { PS* x = (PS*)p; Team* T = team(); if (T) { bool f; WS& w = nextWS(f); if (f) w.sections = x->n; } x->fn(x->d); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { PS p{fn, d, n}; runTeam(psBody, &p, nt); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { runTeam(fn, data, n); return n ? n : (unsigned)W.o.ompThreads; }

int omp_get_num_threads(void) { return ompTeamSize(); }
int omp_get_thread_num(void) { return ompTid(); }
int omp_get_max_threads(void) { return inRun() ? W.o.ompThreads : 1; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return ompTeamSize() > 1; }
int omp_get_level(void) { return team() ? 1 : 0; }
int omp_get_active_level(void) { return ompTeamSize() > 1; }
int omp_get_team_size(int l) { return l == 0 ? 1 : ompTeamSize(); }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : ompTid(); }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_max_active_levels(void) { return 1; }
int omp_get_thread_limit(void) { return 64; }
int omp_get_cancellation(void) { return 0; }
void omp_set_num_threads(int n) { if (inRun()) W.o.ompThreads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
double omp_get_wtime(void) { return MPI_Wtime(); }
double omp_get_wtick(void) { return 1e-6; }
void omp_init_lock(void**) {} void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { raceLock(l, true); } void omp_unset_lock(void** l) { raceLock(l, false); }
int omp_test_lock(void** l) { raceLock(l, true); return 1; }
void omp_init_nest_lock(void**) {} void omp_destroy_nest_lock(void**) {} void omp_set_nest_lock(void**) {} void omp_unset_nest_lock(void**) {}
int omp_get_proc_bind(void) { return 0; }
int omp_get_num_places(void) { return 1; }
int omp_get_place_num(void) { return 0; }
}

// ------------------------------------------------------------------ race monitor
// The members of a team execute one after another; every instrumented access between two barriers is
// recorded with (member, held locks).  Two accesses to the same byte by different members in the same
// barrier interval, at least one a write, without a common lock, race.
#include <memory>
#include <unordered_map>
namespace vmpi {
bool tlsHas(uintptr_t a);
static RaceReport RR; static bool raceOn = false;
struct Cell { short wTid = -1; short rTid = -1; bool rMany = false; unsigned wLocks = 0, rLocks = ~0u; void* wpc = nullptr; void* rpc = nullptr; };
struct Granule { Cell c[8]; };
struct RankRace { bool inRegion = false; unsigned held[8] = {}; std::unordered_map<uintptr_t, Granule> shadow; };
static std::map<int, RankRace> rraces;
static RankRace* curRace = nullptr; static int curRaceRank = -1;
static std::map<const void*, int> lockIds;
static int skipDepth = 0;
static bool inMonitor = false;   // the monitor's own allocations are not monitored
struct InMonitor { InMonitor() { inMonitor = true; } ~InMonitor() { inMonitor = false; } };
static RankRace& rr() { if (!curRace || curRaceRank != W.cur) { curRaceRank = W.cur; curRace = &rraces[W.cur]; } return *curRace; }
RaceReport& races() { return RR; }
void raceReset(bool e) { InMonitor guard; RR = RaceReport(); raceOn = e; rraces.clear(); curRace = nullptr; curRaceRank = -1; skipDepth = 0; lockIds.clear(); }
void raceRegion(bool b) { if (!raceOn) return; InMonitor guard; auto& r = rr(); r.inRegion = b; r.shadow.clear(); for (auto& h : r.held) h = 0; if (b) ++RR.regions; }
void raceBarrier() { if (!raceOn) return; InMonitor guard; rr().shadow.clear(); }
void raceSkip(int d) { skipDepth += d; }
void raceLock(const void* l, bool a) {
  if (!raceOn || !inRun()) return;
  InMonitor guard;
  auto& r = rr(); Team* T = team(); if (!r.inRegion || !T || T->real < 0) return;
  auto it = lockIds.emplace(l, (int)lockIds.size()).first; unsigned bit = 1u << (it->second % 31);
  if (a) r.held[T->real] |= bit; else r.held[T->real] &= ~bit;
}
static void report(const char* what, uintptr_t a, void* pc1, void* pc2, int t1, int t2) {
  ++RR.count;
  std::pair<void*, void*> k{pc1, pc2};
  if (RR.pcs.size() < 64 && std::find(RR.pcs.begin(), RR.pcs.end(), k) == RR.pcs.end()) RR.pcs.push_back(k);
  if (RR.found) return;
  // call chain of the second access (the instrumented code keeps frame pointers)
  { void** fp = (void**)__builtin_frame_address(0); Team* T = team(); char* st = ompStack((size_t)T->rank * 8 + T->real);
    for (int k = 0; k < 24 && (char*)fp >= st && (char*)fp < st + (4u << 20) - 16; ++k) { if (fp[1]) RR.chain.push_back(fp[1]); if ((char*)fp[0] <= (char*)fp) break; fp = (void**)fp[0]; } }
  RR.found = true; RR.msg = sfmt("%s: threads %d and %d access the same memory without synchronisation", what, t1, t2);
}
void raceAccess(uintptr_t a, size_t n, bool write, bool atomic, void* pc) {
  if (!raceOn || skipDepth || inMonitor || !inRun()) return;
  InMonitor guard;
  Team* T = team(); if (!T || T->t.size() < 2) return;
  auto& r = rr(); if (!r.inRegion) return;
  int tid = T->real; if (tid < 0) return;
  // a member's own stack is private as far as the others have no address of it; thread-local storage is exchanged
  char* st = ompStack((size_t)T->rank * 8 + tid);
  if (a >= (uintptr_t)st && a < (uintptr_t)st + (4u << 20)) return;
  if (tlsHas(a)) return;
  ++RR.accesses;
  unsigned locks = r.held[tid] | (atomic ? 0x80000000u : 0);
  Granule* g = nullptr; uintptr_t gk = 0;
  for (size_t k = 0; k < n; ++k) {
    uintptr_t key = (a + k) >> 3;
    if (!g || key != gk) { g = &r.shadow[key]; gk = key; }
    Cell& c = g->c[(a + k) & 7];
    if (c.wTid >= 0 && c.wTid != tid && !(c.wLocks & locks)) { report(write ? "write-write race" : "write-read race", a + k, c.wpc, pc, c.wTid, tid); return; }
    if (write && c.rTid >= 0 && (c.rMany || c.rTid != tid) && !(c.rLocks & locks)) { report("read-write race", a + k, c.rpc, pc, c.rTid, tid); return; }
    if (write) { if (c.wTid == tid) c.wLocks &= locks; else c.wLocks = locks; c.wTid = (short)tid; c.wpc = pc; }
    else { if (c.rTid >= 0 && c.rTid != tid) c.rMany = true; c.rTid = (short)tid; c.rLocks &= locks; c.rpc = pc; }
  }
}
void raceForget(uintptr_t a, size_t n) {
  if (!raceOn || inMonitor || !inRun()) return;
  InMonitor guard;
  if (!team()) return;
  auto& r = rr(); if (!r.inRegion) return;
  if (n / 8 > r.shadow.size()) { for (auto it = r.shadow.begin(); it != r.shadow.end();) { if (it->first * 8 + 7 >= a && it->first * 8 < a + n) it = r.shadow.erase(it); else ++it; } return; }
  for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3 && n; ++k) r.shadow.erase(k);
}
}  // namespace vmpi
extern "C" {
void GOMP_teams_reg(void (*fn)(void*), void* data, unsigned, unsigned, unsigned) { fn(data); }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
int omp_get_max_teams(void) { return 1; }
int omp_get_teams_thread_limit(void) { return 64; }
int omp_get_num_devices(void) { return 0; }
int omp_get_default_device(void) { return 0; }
int omp_get_initial_device(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
int omp_get_supported_active_levels(void) { return 1; }
}
