// Manager and workers running a command sequence against the sequential model.
#pragma once
#include <sys/stat.h>
#include <deque>
#include "combi.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "utils/Stats.hpp"

namespace ref {
typedef cg::ProcessManager<double> PM;
typedef cg::ProcessGroupManagerContainer<double> PGs;
// moves prescribed by the driver
struct ScriptedRescheduler : cg::TaskRescheduler {
  vector<std::pair<cg::LevelVector, int>>* next;
  vector<std::pair<cg::LevelVector, int>> eval(const std::map<cg::LevelVector, int>&, const std::map<cg::LevelVector, unsigned long>&, cg::LoadModel*) override { return *next; }
};

// manager commands; letters:
//  R runnext            C combine              0 1 2 norms            I interpolate
//  E parallel evaluation on the first group, e on the last one          D diagnostics of the first task, d of the last one
//  U update parameters  S reschedule (scripted)                         W write sparse grids, G read them back
//  M write min/max coefficients               T combine through the third-level protocol (local part)
//  A wait for all groups   l L combined maximum / 2-norm   V VTK output of one group (nothing without VTK)
//  Z reset the first group's workers and hand them their tasks again
//  X the same without the group's first task, which is then redistributed; Y ... recomputed
struct Program {
  Cfg c; std::string ops; vector<vector<std::pair<int, int>>> moves;   // per S: grid, group offset
  vector<vector<double>> coords; IV leval; int tlgroup = 0;
};

struct Shared {
  std::deque<World> snap;                    // model states
  vector<vector<int>> sched;                 // per group: model states of the state-changing signals it gets
  Recorder rec; long compared = 0, commands = 0;
  vector<vector<size_t>> finalIds;           // per group, tasks the manager believes to be there
  vector<vector<size_t>> workerIds;          // per rank, tasks before the last signal
  std::map<size_t, int> diag;                // per task, number of diagnostics commands
};

inline void checkPlot(const std::string& fn, const World& W, const IV& leval, const char* when) {
  Grid g = W.fill(leval);
  FILE* f = fopen(fn.c_str(), "rb"); REQ(f, "%s: %s was not written", when, fn.c_str());
  struct stat st; fstat(fileno(f), &st); long n = g.size();
  vector<double> d(n); bool ok = st.st_size == n * 8 && fread(d.data(), 8, n, f) == (size_t)n; fclose(f);
  REQ(ok, "%s: %s has %ld bytes instead of %ld", when, fn.c_str(), (long)st.st_size, n * 8);
  for (long i = 0; i < n; ++i) REQ(close(d[i], g.v[i]), "%s: value %ld of %s is %.15g, combined solution %.15g", when, i, fn.c_str(), d[i], g.v[i]);
}

inline void workerBody(const Program& P, Shared& S, int rank, const std::function<void(Worker&, cg::SignalType)>& onSignal = {}) {
  const Cfg& c = P.c;
  VTask::fwd = c.fwd;
  Worker w; int grp = cg::theMPISystem()->getProcessGroupNumber(); size_t k = 0; long cmp = 0;
  cg::SignalType sig = -1;
  while (sig != cg::EXIT) {
    vector<size_t> ids; for (auto& t : w.getTasks()) ids.push_back(t->getID());
    S.workerIds[rank] = ids;
    size_t ev0 = S.rec.ev.size();
    sig = w.wait();
    if (onSignal) onSignal(w, sig);
    // every task advances exactly once in a run phase and never otherwise
    std::multiset<size_t> ran, expect; vector<size_t> now; for (auto& t : w.getTasks()) now.push_back(t->getID());
    for (size_t e = ev0; e < S.rec.ev.size(); ++e) if (S.rec.ev[e].rank == rank && S.rec.ev[e].what == 1) ran.insert(S.rec.ev[e].id);
    if (sig == cg::RUN_NEXT) expect.insert(ids.begin(), ids.end());
    if ((sig == cg::RUN_FIRST || sig == cg::RECOMPUTE) && !now.empty()) expect.insert(now.back());
    REQ(ran == expect, "group %d: signal %d advanced %zu tasks, expected %zu (or other ones)", grp, sig, ran.size(), expect.size());
    { std::set<size_t> u(now.begin(), now.end()); REQ(u.size() == now.size(), "group %d holds a task twice", grp); }
    int st = -1;
    if (sig == cg::INIT_DSGUS) st = 0;
    else if (sig == cg::RUN_NEXT || sig == cg::COMBINE || sig == cg::COMBINE_LOCAL_AND_GLOBAL || sig == cg::COMBINE_THIRD_LEVEL || sig == cg::WAIT_FOR_TL_COMBI_RESULT || sig == cg::RESCHEDULE_ADD_TASK) { REQ(k < S.sched[grp].size(), "group %d received signal %d that the manager did not issue", grp, sig); st = S.sched[grp][k++]; }
    if (st >= 0) cmp += compareTasks(S.snap[st], w, hz::fmt("group %d after signal %d (state %d)", grp, sig, st).c_str());
  }
  REQ(k == S.sched[grp].size(), "group %d handled %zu of %zu state-changing commands", grp, k, S.sched[grp].size());
  S.compared += cmp;
}

inline void managerBody(const Program& P, Shared& S, const std::function<void(PM&, PGs&, World&)>& extra = {}) {
  const Cfg& c = P.c;
  PGs pg; for (int g = 0; g < c.ngroup; ++g) pg.push_back(std::make_shared<cg::ProcessGroupManager<double>>(g));
  auto lm = std::unique_ptr<cg::LoadModel>(new cg::LinearLoadModel());
  cg::TaskContainer<double> tasks; vector<size_t> ids;
  for (size_t k = 0; k < c.levels.size(); ++k) { tasks.push_back(new VTask(lv(c.levels[k]), u8(c.bnd), c.coeffs[k], lm.get(), c.fold(), nullptr, c.nfields)); ids.push_back(tasks.back()->getID()); }
  std::map<size_t, int> gridOf; for (size_t k = 0; k < ids.size(); ++k) gridOf[ids[k]] = (int)k;
  auto params = managerParamsOf(c, ids, 10, P.tlgroup);
  vector<std::pair<cg::LevelVector, int>> moves;
  auto rs = std::make_unique<ScriptedRescheduler>(); rs->next = &moves;
  World W(c); vector<int> mgrSteps(ids.size(), 0);     // steps of the manager's own copies of the tasks
  W.run(); S.snap.push_back(W); bool valid = false;    // valid: sparse grid data present
  PM man(pg, tasks, params, std::move(lm), std::move(rs));
  man.runfirst();
  auto groupWith = [&](const cg::LevelVector& l) { for (int g = 0; g < c.ngroup; ++g) for (auto* t : pg[g]->getTaskContainer()) if (t->getLevelVector() == l) return g; return -1; };
  auto verifyBooks = [&](const char* when) { std::map<size_t, int> n; for (auto& g : pg) for (auto* t : g->getTaskContainer()) ++n[t->getID()]; REQ(n.size() == ids.size(), "%s: manager lists %zu of %zu tasks", when, n.size(), ids.size()); for (auto& x : n) REQ(x.second == 1 && gridOf.count(x.first), "%s: manager lists task %zu %d times", when, x.first, x.second); };
  verifyBooks("after runfirst");
  for (auto& p : pg) REQ(!p->getTaskContainer().empty(), "a process group got no task");
  int ne = 0, ns = 0; vector<std::map<vector<long>, double>> saved;   // sparse grids in the file
  auto push = [&](bool onlyWithTasks = false) { S.snap.push_back(W); for (int g = 0; g < c.ngroup; ++g) if (!onlyWithTasks || !pg[g]->getTaskContainer().empty()) S.sched[g].push_back((int)S.snap.size() - 1); };
  for (size_t i = 0; i < P.ops.size(); ++i) {
    char o = P.ops[i]; std::string when = hz::fmt("command %zu (%c)", i + 1, o); ++S.commands;
    switch (o) {
      case 'R': W.run(); push(true); man.runnext(); break;
      case 'C': W.combine(); push(); valid = true; man.combine(); break;
      case 'T': man.pretendUnifySubspaceSizesThirdLevel(); W.hierarchize(); W.reduce(); push(); W.distribute(); W.dehierarchize(); push(); valid = true; man.pretendCombineThirdLevelForWorkers(); break;
      case '0': case '1': case '2': {
        auto n = man.getLpNorms(o - '0'); REQ(n.size() == ids.size(), "%s: %zu norms for %zu tasks", when.c_str(), n.size(), ids.size());
        for (auto& x : n) { REQ(gridOf.count(x.first), "%s: norm of unknown task %zu", when.c_str(), x.first); const Grid& g = W.g[gridOf[x.first]]; if (o == '0') { double m = 0; for (double v : g.v) m = std::max(m, std::fabs(v)); REQ(close(x.second, m), "%s: maximum norm of grid %s is %.15g, expected %.15g", when.c_str(), hz::vs(g.levels).c_str(), x.second, m); } else REQ(std::isfinite(x.second) && x.second >= 0, "%s: norm %g", when.c_str(), x.second); vmpi::observe(std::hash<std::string>()(hz::fmt("%zu %.9g", x.first, x.second))); }
      } break;
      case 'l': case 'L': {   // combined norm: sum of the grids' norms, weighted with the coefficients
        int p = o == 'l' ? 0 : 2; auto n = man.getLpNorms(p); double e = 0, v = man.getLpNorm(p); for (auto& x : n) { REQ(gridOf.count(x.first), "%s: norm of unknown task %zu", when.c_str(), x.first); e += x.second * c.coeffs[gridOf[x.first]]; }
        REQ(n.size() == ids.size() && close(v, e), "%s: norm %.15g, expected %.15g", when.c_str(), v, e);
      } break;
      case 'V': man.writeCombigridsToVTKPlotFile(pg[i % pg.size()]); break;
      case 'I': { auto v = man.interpolateValues(P.coords); REQ(v.size() == P.coords.size(), "%s: %zu values for %zu coordinates", when.c_str(), v.size(), P.coords.size()); for (size_t k = 0; k < v.size(); ++k) { double e = W.interpolate(P.coords[k]); REQ(close(v[k], e), "%s: value %zu is %.15g, expected %.15g", when.c_str(), k, v[k], e); } } break;
      case 'E': case 'e': { std::string fn = hz::fmt("plot%d.raw", ne); for (int f = 0; f < c.nfields; ++f) unlink(hz::fmt("plot%d_%d.raw", ne, f).c_str()); man.parallelEval(lv(P.leval), fn, o == 'E' ? 0 : c.ngroup - 1); if (valid && (c.variant == 0 || c.ngroup == 1)) for (int f = 0; f < c.nfields; ++f) checkPlot(hz::fmt("plot%d_%d.raw", ne, f), W.field(f), P.leval, when.c_str()); ++ne; } break;
      case 'D': case 'd': { size_t id = o == 'D' ? ids.front() : ids.back(); size_t mine = 0, e0 = S.rec.ev.size(); ++S.diag[id]; man.doDiagnostics(id); man.waitForAllGroupsToWait(); for (size_t e = e0; e < S.rec.ev.size(); ++e) if (S.rec.ev[e].what == 3 && S.rec.ev[e].id == id) ++mine; REQ(mine > 0, "%s: diagnostics of task %zu were not run by its group", when.c_str(), id); } break;
      case 'U': man.updateCombiParameters(); break;
      case 'S': {
        moves.clear(); S.snap.push_back(W);
        if (ns < (int)P.moves.size()) for (auto& m : P.moves[ns]) { auto l = lv(c.levels[m.first]); int to = (groupWith(l) + m.second) % c.ngroup; moves.push_back({l, to}); S.sched[to].push_back((int)S.snap.size() - 1); mgrSteps[m.first] = W.gstep[m.first]; }
        ++ns; man.reschedule();
        for (auto& m : moves) REQ(groupWith(m.first) == m.second, "%s: grid %s is booked in group %d instead of %d", when.c_str(), hz::vs(m.first).c_str(), groupWith(m.first), m.second);
        { std::set<size_t> a; for (auto* t : tasks) a.insert(t->getID()); REQ(a.size() == ids.size() && tasks.size() == ids.size(), "%s: manager's task list has %zu entries", when.c_str(), tasks.size()); }
      } break;
      case 'Z': case 'X': case 'Y': {
        int z = 0; while (pg[z]->getTaskContainer().empty()) ++z;
        PGs rec{pg[z]}; vector<size_t> ign; if (o != 'Z') ign.push_back(pg[z]->getTaskContainer().front()->getID());
        for (auto* t : pg[z]->getTaskContainer()) for (int f = 0; f < c.nfields; ++f) { World& F = f ? W.more[f - 1] : W; int k = gridOf[t->getID()]; for (double& v : F.g[k].v) v = 0; F.gstep[k] = mgrSteps[k]; if (o == 'Y' && t->getID() == ign[0]) { F.g[k] = F.fill(c.levels[k]); F.runGrid(k); } }
        man.reInitializeGroup(rec, ign);
        if (o == 'X') man.redistribute(ign);
        if (o == 'Y') { PGs none; man.recompute(ign, true, none); }
      } break;
      case 'W': man.writeDSGsToDisk("dsg"); saved.clear(); for (int f = 0; f < c.nfields; ++f) saved.push_back(W.field(f).sparse); break;
      case 'G': man.readDSGsFromDisk("dsg"); for (int f = 0; f < c.nfields; ++f) (f ? W.more[f - 1] : W).sparse = saved[f]; break;
      case 'M': man.writeSparseGridMinMaxCoefficients("minmax"); break;
      case 'A': man.waitForAllGroupsToWait(); break;
    }
    verifyBooks(when.c_str());
  }
  if (extra) extra(man, pg, W);
  for (int g = 0; g < c.ngroup; ++g) for (auto* t : pg[g]->getTaskContainer()) S.finalIds[g].push_back(t->getID());
  man.exit();
  for (auto& p : pg) p->waitStatus();
  for (auto* t : tasks) delete t;
}

// body of all ranks; S is shared by the ranks of one execution
inline void programBody(const Program& P, Shared& S, int rank, const std::function<void(PM&, PGs&, World&)>& extra = {}, const std::function<void(Worker&, cg::SignalType)>& onSignal = {}) {
  cg::Stats::initialize(); recorder() = &S.rec;
  cg::theMPISystem()->initWorldReusable(MPI_COMM_WORLD, P.c.ngroup, P.c.nprocs(), true, false);
  if (cg::theMPISystem()->getWorldRank() == cg::theMPISystem()->getManagerRankWorld()) managerBody(P, S, extra); else workerBody(P, S, rank, onSignal);
  cg::Stats::finalize();
}
inline void reset(Shared& S, const Cfg& c) { S = Shared(); S.sched.assign(c.ngroup, {}); S.finalIds.assign(c.ngroup, {}); S.workerIds.assign(c.workers() + 1, {}); }
// what must hold over a complete execution
inline std::string auditTasks(const Program& P, const Shared& S) {
  const Cfg& c = P.c; int np = c.nprocs();
  if (P.ops.find_first_of("SZXY") == std::string::npos) {   // no moves: each task initialised once by each rank of one group
    std::map<size_t, std::multiset<int>> init; for (auto& e : S.rec.ev) if (e.what == 0) init[e.id].insert(e.rank);
    if (init.size() != c.levels.size()) return hz::fmt("%zu of %zu tasks were initialised", init.size(), c.levels.size());
    for (auto& x : init) { std::set<int> u(x.second.begin(), x.second.end()); if ((int)x.second.size() != np || (int)u.size() != np || *u.begin() / np != *u.rbegin() / np) return hz::fmt("task %zu was initialised on %zu ranks", x.first, x.second.size()); }
  }
  { std::map<size_t, int> d; for (auto& e : S.rec.ev) if (e.what == 3) ++d[e.id]; for (auto& x : S.diag) d[x.first] -= x.second * np; for (auto& x : d) if (x.second) return hz::fmt("diagnostics of task %zu ran on %d ranks too many", x.first, x.second); }
  for (int g = 0; g < c.ngroup; ++g) { std::multiset<size_t> m(S.finalIds[g].begin(), S.finalIds[g].end()); for (int r = 0; r < np; ++r) { auto& w = S.workerIds[g * np + r]; std::multiset<size_t> x(w.begin(), w.end()); if (x != m) return hz::fmt("rank %d of group %d holds %zu tasks, the manager books %zu there (or other ones)", r, g, x.size(), m.size()); } }
  return "";
}
inline Program program(Cfg c, const std::string& ops) {
  Program P; P.c = c; P.ops = ops; if (P.c.levels.empty()) classical(c.lmin, c.lmax, P.c.levels, P.c.coeffs);
  int d = c.dim(); P.leval = c.lmax;
  P.coords = {vector<double>(d, 0.5), vector<double>(d, 0.0), vector<double>(d, 0.3)}; for (int k = 0; k < d; ++k) { vector<double> x(d, 0.125); x[k] = 0.8125 - 0.01 * k; P.coords.push_back(x); }
  return P;
}
}  // namespace ref
