// C09: two or three systems coupled through files (worker-only), against one sequential combination of all grids.
// Every MPI-IO call and every token access is a point where the other system may get ahead.
#include "combi.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <filesystem>
using namespace ref;
static bool noYield = false;   // while the driver itself cleans up
namespace {
typedef std::string S;
const char* VN[] = {"sparse", "subspace", "outgroup", "chunked"};
struct Sys { Cfg all; int S; IV ngroup; IV sysOf, grpOf; int parts, steps, mode; bool keep; };   // mode 0: shared directory, 1: own directories and a copy agent, 2: own file only, 3: sizes from a file, names shared
int ranksOf(const Sys& y) { int n = y.mode == 1; for (int g : y.ngroup) n += g * y.all.nprocs(); return n; }
Cfg cfgOf(const Sys& y, int s) { Cfg c = y.all; c.ngroup = y.ngroup[s]; c.levels.clear(); c.coeffs.clear(); c.group.clear(); for (size_t k = 0; k < y.all.levels.size(); ++k) if (y.sysOf[k] == s) { c.levels.push_back(y.all.levels[k]); c.coeffs.push_back(y.all.coeffs[k]); c.group.push_back(y.grpOf[k]); } return c; }
S dirOf(const Sys& y, int s) { return y.mode == 1 ? hz::fmt("sys%d/", s) : S(); }
struct Files { bool done = false; int finished = 0; };
void copyAgent(const Sys& y, Files* f) {
  // copies data and then the token, one file at a time, as soon as the token is there; removes nothing
  std::set<S> copied;
  for (;;) {
    bool any = false;
    for (int s = 0; s < y.S; ++s) {
      vector<S> toks; for (auto& e : std::filesystem::directory_iterator(dirOf(y, s))) { S n = e.path().filename().string(); if (n.find("token") != S::npos && n.find(hz::fmt("x%d_", s)) == 0) toks.push_back(n); }
      std::sort(toks.begin(), toks.end());
      for (auto& t : toks) if (copied.insert(hz::fmt("%d/", s) + t).second) {
        any = true; S base = t.substr(0, t.find("_token")), part = t.find(".part") == S::npos ? S() : t.substr(t.find(".part"));
        S data = base.find("size") != S::npos ? base : base + "_0" + part;
        for (int o = 0; o < y.S; ++o) if (o != s) {
          vmpi::yieldPoint("copy");
          std::ifstream i(dirOf(y, s) + data, std::ios::binary); REQ(i.good(), "token %s without data %s", t.c_str(), data.c_str()); S buf((std::istreambuf_iterator<char>(i)), {});
          { std::ofstream d(dirOf(y, o) + data, std::ios::binary); d.write(buf.data(), (long)buf.size() / 2); }
          vmpi::progress(); vmpi::yieldPoint("copy");
          { std::ofstream d(dirOf(y, o) + data, std::ios::binary | std::ios::app); d.write(buf.data() + buf.size() / 2, (long)(buf.size() - buf.size() / 2)); }
          vmpi::yieldPoint("copy"); std::ofstream(dirOf(y, o) + t); vmpi::progress();
        }
      }
    }
    if (f->finished == ranksOf(y) - 1) return;
    if (!any) vmpi::spin("copy agent");
  }
}
void body(const Sys& y, int rank, Files* f, hz::Ctx* ctx) {
  int s = 0, base = 0; while (s < y.S && rank >= base + y.ngroup[s] * y.all.nprocs()) { base += y.ngroup[s] * y.all.nprocs(); ++s; }
  if (rank == 0) { *f = Files(); noYield = true; REQ(std::filesystem::current_path().string().rfind("/tmp/hz-", 0) == 0, "not in a scratch directory"); for (auto& e : std::filesystem::directory_iterator(".")) std::filesystem::remove_all(e.path()); if (y.mode == 1) for (int k = 0; k < y.S; ++k) std::filesystem::create_directory(dirOf(y, k)); noYield = false; }
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Comm comm; MPI_Comm_split(MPI_COMM_WORLD, s < y.S ? s : MPI_UNDEFINED, rank, &comm);
  if (s == y.S) { copyAgent(y, f); MPI_Barrier(MPI_COMM_WORLD); return; }
  long n = 0;
  {
    Cfg c = cfgOf(y, s); World W(y.all); Worker w; setupWorker(c, w, comm, false); w.initCombinedDSGVector();
    if (y.parts > 1) cg::theMPISystem()->initOutputGroupComm((uint16_t)y.parts);
    S d = dirOf(y, s); auto nm = [&](int who, const S& what) { return d + hz::fmt("x%d_", who) + what; };
    vector<S> rf, rt; for (int o = 0; o < y.S; ++o) if (o != s) { rf.push_back(nm(o, "size")); rt.push_back(nm(o, "size_token.txt")); }
    if (y.S > 1) w.reduceExtraSubspaceSizesFileBased(nm(s, "size"), nm(s, "size_token.txt"), rf, rt);
    else { w.reduceExtraSubspaceSizesFileBased(nm(s, "size"), nm(s, "size_token.txt"), {nm(s, "size")}, {nm(s, "size_token.txt")}); }
    w.zeroDsgsData();
    for (int k = 0; k < y.steps; ++k) {
      W.run(); w.runAllTasks(); S st = hz::fmt("step%d", k);
      w.combineSystemWideAndWrite(nm(s, st), nm(s, st + "_token.txt"));
      vector<S> f, t; for (int o = 0; o < y.S; ++o) if (o != s || y.S == 1) { f.push_back(nm(o, st)); t.push_back(nm(o, st + "_token.txt")); }
      w.combineReadDistributeSystemWide(f, t, y.S == 1, y.keep);
      W.combine(); n += compareTasks(W, w, hz::fmt("system %d after exchange %d", s, k + 1).c_str());
      REQ((int)w.getCurrentNumberOfCombinations() == k + 1, "%d combinations counted after %d", (int)w.getCurrentNumberOfCombinations(), k + 1);
    }
  }
  f->finished++; vmpi::progress();
  ctx->count(n);
  MPI_Comm_free(&comm);
  MPI_Barrier(MPI_COMM_WORLD);
  if (rank == 0) {
    // what is left: subspace sizes and, if asked to keep them (or copied away), the exchanged grids; no token of an exchange
    for (int k = 0; k < (y.mode == 1 ? y.S : 1); ++k) for (auto& e : std::filesystem::directory_iterator(y.mode == 1 ? S("sys") + std::to_string(k) : S("."))) {
      S nme = e.path().filename().string(); if (nme.find("size") != S::npos || e.is_directory()) continue;
      bool own = y.mode == 1 && nme.find(hz::fmt("x%d_", k)) == 0; if (own) continue;   // the writer's copy is removed by nobody
      bool tok = nme.find("token") != S::npos;
      REQ(!tok, "token %s is left", nme.c_str()); REQ(y.keep || tok, "file %s is left", nme.c_str());
    }
    if (y.keep) for (int k = 0; k < y.S; ++k) for (int st = 0; st < y.steps; ++st) for (int p = 0; p < y.parts; ++p) { S nme = dirOf(y, k) + hz::fmt("x%d_step%d_0.part%d", k, st, p); REQ(std::filesystem::exists(nme), "file %s is gone although it should be kept", nme.c_str()); }
  }
}
}  // namespace
// token files are accessed with the C++ library: every access is a point where others may run
extern "C" {
FILE* fopen64(const char* p, const char* m) { if (vmpi::inRun() && !noYield) { vmpi::yieldPoint("fopen"); vmpi::progress(); } static auto r = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64"); return r(p, m); }
FILE* fopen(const char* p, const char* m) { if (vmpi::inRun() && !noYield) { vmpi::yieldPoint("fopen"); vmpi::progress(); } static auto r = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); return r(p, m); }
int unlink(const char* p) noexcept { if (vmpi::inRun() && !noYield) vmpi::yieldPoint("unlink"); static auto r = (int (*)(const char*))dlsym(RTLD_NEXT, "unlink"); return r(p); }
int remove(const char* p) noexcept { if (vmpi::inRun() && !noYield) vmpi::yieldPoint("remove"); static auto r = (int (*)(const char*))dlsym(RTLD_NEXT, "remove"); return r(p); }
}
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C09"); bool T = h.thorough();
  auto add = [&](Sys y, int bound, int vary) {
    IV g; for (auto& x : y.ngroup) g.push_back(x);
    S id = hz::fmt("systems=%d groups=%s procs=%s parts=%d %s %s%s l%s-%s red%s b%s at%s/%s bound=%d", y.S, hz::vs(g).c_str(), hz::vs(y.all.procs).c_str(), y.parts, VN[y.all.variant], y.mode == 1 ? "copied" : "shared", y.keep ? " keep" : "", hz::vs(y.all.lmin).c_str(), hz::vs(y.all.lmax).c_str(), hz::vs(y.all.reduceLmax).c_str(), hz::vs(y.all.bnd).c_str(), hz::vs(y.sysOf).c_str(), hz::vs(y.grpOf).c_str(), bound);
    h.add(id, [=](hz::Ctx& c) {
      auto f = std::make_shared<Files>(); auto* C = &c;
      for (int v = 0; v < vary; ++v) {
        vmpi::Options o; o.nranks = ranksOf(y); o.bound = bound; o.preemptAt = bound ? vmpi::PT_FILE | vmpi::PT_USER : 0; o.schedChoice = bound > 0; o.reverseSched = v & 1; o.syncColl = !(v & 2); o.lateDelivery = v & 2; o.rendezvous = v & 2; o.maxExec = 200000; o.idleRounds = 400;
        c.check(hz::fmt("v%d", v), o, [=](int r) { body(y, r, f.get(), C); });
        if (c.failed) return; c.nontriv(); c.progressMark();
      }
    });
  };
  auto base = [&](IV lmin, IV lmax, IV bnd, IV procs, int variant, IV red) { Cfg c; c.lmin = lmin; c.lmax = lmax; c.bnd = bnd; c.procs = procs; c.variant = variant; c.reduceLmax = red; for (int b : bnd) c.basis.push_back(b == 1 ? HATP : HAT); classical(lmin, lmax, c.levels, c.coeffs); return c; };
  // all distributions of the grids to systems and groups such that every group has a grid
  auto assignments = [&](int n, const IV& ng, int stride) { vector<std::pair<IV, IV>> o; int G = 0; for (int x : ng) G += x; int cnt = 0; for (auto& a : cube(n, 0, G - 1)) { std::set<int> u(a.begin(), a.end()); if ((int)u.size() < G) continue; if (cnt++ % stride) continue; IV so(n), go(n); for (int i = 0; i < n; ++i) { int k = a[i], s = 0; while (k >= ng[s]) k -= ng[s++]; so[i] = s; go[i] = k; } o.push_back({so, go}); } return o; };
  IV all3 = {0, 2, 3};
  for (int va : all3) {
    // two systems, every assignment
    for (IV ng : vector<IV>{{1, 1}, {1, 2}, {2, 1}, {2, 2}}) for (IV pr : vector<IV>{{1, 1}, {2, 1}, {1, 2}}) {
      Cfg c = base({1, 1}, {3, 3}, {2, 2}, pr, va, {0, 0}); int n = (int)c.levels.size(); int G = ng[0] + ng[1];
      int st = G == 2 ? 1 : G == 3 ? 5 : 11; if (prod(pr) > 1) st = st * 2 + 1; if (T) st = 1;
      for (auto& a : assignments(n, ng, st)) add({c, 2, ng, a.first, a.second, 1, 2, 0, false}, 0, 2);
    }
    for (IV red : vector<IV>{{1, 1}, {2, 2}, {1, 0}}) for (IV bd : vector<IV>{{2, 2}, {1, 1}, {0, 2}}) { Cfg c = base({1, 1}, {3, 3}, bd, {1, 1}, va, red); for (auto& a : assignments(5, {2, 1}, T ? 1 : 7)) add({c, 2, {2, 1}, a.first, a.second, 1, 2, 0, false}, 0, 1); }
    { Cfg c = base({2, 2}, {4, 4}, {2, 2}, {2, 2}, va, {1, 1}); for (int parts : {1, 2, 3, 4}) for (auto& a : assignments(5, {1, 1}, T ? 1 : 6)) add({c, 2, {1, 1}, a.first, a.second, parts, 2, 0, parts % 2 == 0}, 0, 4); }
    { Cfg c = base({2, 2}, {4, 4}, {1, 2}, {1, 3}, va, {0, 0}); c.dec = {{0}, {0, 6, 11}}; for (int parts : {1, 2, 3}) for (auto& a : assignments(5, {2, 1}, T ? 11 : 41)) add({c, 2, {2, 1}, a.first, a.second, parts, 2, 0, false}, 0, 4); }
    { Cfg c = base({1, 1, 1}, {2, 2, 2}, {2, 2, 2}, {1, 2, 1}, va, {0, 0, 0}); for (auto& a : assignments((int)c.levels.size(), {1, 1}, T ? 1 : 3)) add({c, 2, {1, 1}, a.first, a.second, 1, 1, 0, false}, 0, 1); }
    // more data than one communication chunk (131072 values), collected by the output rank of a system of two groups
    for (int b = 0; b <= 2; ++b) for (auto& ls : vector<vector<IV>>{{{17}, {18}, {16}}, {{18}, {17}, {16}}}) for (IV ng : vector<IV>{{2, 1}, {1, 2}}) {
      if (!T && (b + ng[0] + (int)ls[0][0]) % 2) continue;
      Cfg c = base({16}, {18}, {b}, {1}, va, {0}); c.chunk = 1; c.levels = ls; c.coeffs = {1, 0.5, -0.5}; int big = ng[0] == 2 ? 0 : 1;
      add({c, 2, ng, {big, big, 1 - big}, {0, 1, 0}, 1, 1, 0, false}, 0, 2);
    }
    // several chunks broadcast to the other group of a system
    if (va == 3 || T) for (int b : T ? IV{0, 1, 2} : IV{2}) for (auto& ls : vector<vector<IV>>{{{18}, {19}, {17}}, {{19}, {18}, {17}}}) {
      Cfg c = base({16}, {19}, {b}, {1}, va, {0}); c.chunk = 1; c.levels = ls; c.coeffs = {1, 0.5, -0.5}; add({c, 2, {2, 1}, {0, 0, 1}, {0, 1, 0}, 1, 1, 0, false}, 0, 4);
    }
    // own directories, copy agent; two and three systems
    { Cfg c = base({1, 1}, {3, 3}, {2, 2}, {1, 1}, va, {0, 0}); for (auto& a : assignments(5, {1, 1}, 3)) add({c, 2, {1, 1}, a.first, a.second, 1, 2, 1, false}, 0, 4); for (auto& a : assignments(5, {1, 1, 1}, T ? 1 : 5)) add({c, 3, {1, 1, 1}, a.first, a.second, 1, 2, 1, false}, 0, 4); for (auto& a : assignments(5, {2, 1, 1}, T ? 3 : 23)) add({c, 3, {2, 1, 1}, a.first, a.second, 1, 2, 1, true}, 0, 4); }
    { Cfg c = base({1, 1}, {3, 3}, {2, 2}, {2, 1}, va, {1, 1}); for (auto& a : assignments(5, {1, 1, 1}, T ? 3 : 23)) add({c, 3, {1, 1, 1}, a.first, a.second, 2, 2, 1, false}, 0, 4); }
    // one system, reading its own file
    for (IV pr : vector<IV>{{1, 1}, {2, 1}}) for (int g : {1, 2}) { Cfg c = base({1, 1}, {3, 3}, {2, 2}, pr, va, {0, 0}); for (auto& a : assignments(5, {g}, T ? 1 : 4)) add({c, 1, {g}, a.first, a.second, (int)prod(pr), 2, 0, false}, 0, 2); }
    // all schedules with one deviation
    { Cfg c = base({1, 1}, {2, 2}, {2, 2}, {1, 1}, va, {0, 0}); for (auto& a : assignments(3, {1, 1}, 2)) { add({c, 2, {1, 1}, a.first, a.second, 1, 2, 0, false}, T ? 2 : 1, 4); add({c, 2, {1, 1}, a.first, a.second, 1, 1, 1, false}, 1, 4); } for (auto& a : assignments(3, {2, 1}, 3)) add({c, 2, {2, 1}, a.first, a.second, 1, 2, 0, true}, 1, 2); }
    { Cfg c = base({1, 1}, {2, 2}, {2, 2}, {2, 1}, va, {0, 0}); for (int parts : {1, 2}) for (auto& a : assignments(3, {1, 1}, 4)) add({c, 2, {1, 1}, a.first, a.second, parts, 1, 0, false}, 1, 4); }
  }
  h.rule = "distinct system layouts, grid distributions, variants and schedules of file-based exchanges, compared with one sequential combination of all grids";
  h.bounds = "2 and 3 systems (and one reading its own file) of 1-2 groups with 1-4 processes, 3 combination variants, 1-4 file parts, schemes of 3-7 grids in 2-3 dimensions, grid distributions (quick: every n-th), 1-2 exchanges, shared directory or a copying agent that delivers each file in two pieces; schedules: ascending/descending ranks, weak and strong collectives, and for the small layouts all schedules with one deviation (thorough: two) at file accesses and rank switches";
  h.assumptions = {"file names differ between steps, as in the examples", "with three systems every system has its own directory", "closing an MPI file synchronises its ranks"};
  return h.run();
}
