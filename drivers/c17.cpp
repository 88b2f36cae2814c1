// C17: two complete systems (manager, process groups) and the broker between them, over the in-memory network,
// against one sequential combination of all grids.
#include <filesystem>
#include "mgr.hpp"
#include "net.hpp"
#include "third_level_manager/thirdLevelManager.hpp"
using namespace ref;
namespace {
typedef std::string S;
// script letters, the same for both systems:
//  u unify subspace sizes   x the same with an extra sparse grid (shared subspaces only)
//  R run   T combine over the network   F combine through files   f the same in two commands
//  M interpolate at random coordinates on both systems   B exchange dummy data   I interpolate locally   E evaluate on the third-level group
//  C combine locally only   1 norms   p pretend to unify sizes   P combine, pretending to exchange
struct Two { Cfg all; IV ngroup, tlgroup, sysOf; S script; size_t chunk; int breaks; long after; };
int ranksOf(const Two& y) { return 1 + (y.ngroup[0] + y.ngroup[1]) * y.all.nprocs() + 2; }
int sysOfRank(const Two& y, int r) { return r - 1 < y.ngroup[0] * y.all.nprocs() + 1 ? 0 : 1; }
Cfg cfgOf(const Two& y, int s) { Cfg c = y.all; c.ngroup = y.ngroup[s]; c.levels.clear(); c.coeffs.clear(); for (size_t k = 0; k < y.all.levels.size(); ++k) if (y.sysOf[k] == s) { c.levels.push_back(y.all.levels[k]); c.coeffs.push_back(y.all.coeffs[k]); } return c; }
struct Shared2 { vector<World> snap[2]; size_t unionSize = 0, sharedSize = 0, ownSize[2] = {0, 0}; vector<vector<vector<double>>> coords; long compared = 0; int finished = 0; };
// model states: one per R, T, F, f, C
void model(const Two& y, Shared2& h) {
  World W(y.all); World part[2] = {World(cfgOf(y, 0)), World(cfgOf(y, 1))};
  auto give = [&] { for (int s = 0; s < 2; ++s) for (size_t k = 0; k < part[s].g.size(); ++k) { int j = W.find(part[s].c.levels[k]); part[s].g[k] = W.g[j]; part[s].gstep[k] = W.gstep[j]; } };
  auto take = [&] { for (int s = 0; s < 2; ++s) for (size_t k = 0; k < part[s].g.size(); ++k) W.g[W.find(part[s].c.levels[k])] = part[s].g[k]; };
  auto push = [&] { for (int s = 0; s < 2; ++s) { part[s].sparse = W.sparse; h.snap[s].push_back(part[s]); } };
  W.run(); give(); push();
  World a = part[0], b = part[1], u = W; a.reduce(); b.reduce(); u.reduce(); h.unionSize = u.sparse.size(); h.ownSize[0] = a.sparse.size(); h.ownSize[1] = b.sparse.size(); for (auto& x : a.sparse) h.sharedSize += b.sparse.count(x.first);
  for (char o : y.script) {
    if (o == 'R') { W.run(); give(); push(); }
    if (o == 'T' || o == 'F' || o == 'f') { W.combine(); give(); push(); }
    if (o == 'C' || o == 'P') { for (auto& p : part) p.combine(); take(); for (int s = 0; s < 2; ++s) h.snap[s].push_back(part[s]); }
  }
}
void worker(const Two& y, Shared2& h, int s) {
  VTask::fwd = y.all.fwd; Worker w; size_t k = 0; int grp = cg::theMPISystem()->getProcessGroupNumber();
  for (cg::SignalType sig = -1; sig != cg::EXIT;) {
    sig = w.wait(); bool cmp = false;
    if (sig == cg::INIT_DSGUS) cmp = true;
    if (sig == cg::RUN_NEXT || sig == cg::COMBINE || sig == cg::COMBINE_THIRD_LEVEL || sig == cg::WAIT_FOR_TL_COMBI_RESULT || sig == cg::COMBINE_THIRD_LEVEL_FILE || sig == cg::COMBINE_READ_DSGS_AND_REDUCE) { ++k; cmp = true; }
    REQ(k < h.snap[s].size(), "system %d group %d received signal %d that the manager did not issue", s, grp, sig);
    if (cmp) h.compared += compareTasks(h.snap[s][k], w, hz::fmt("system %d group %d after signal %d (state %zu)", s, grp, sig, k).c_str());
  }
  REQ(k + 1 == h.snap[s].size(), "system %d group %d handled %zu of %zu state-changing commands", s, grp, k, h.snap[s].size() - 1);
}
void manager(const Two& y, Shared2& h, int s) {
  Cfg c = cfgOf(y, s); PGs pg; for (int g = 0; g < c.ngroup; ++g) pg.push_back(std::make_shared<cg::ProcessGroupManager<double>>(g));
  auto lm = std::unique_ptr<cg::LoadModel>(new cg::LinearLoadModel());
  cg::TaskContainer<double> tasks; vector<size_t> ids; vector<cg::LevelVector> ls;
  for (size_t k = 0; k < c.levels.size(); ++k) { ls.push_back(lv(c.levels[k])); tasks.push_back(new VTask(ls.back(), u8(c.bnd), c.coeffs[k], lm.get(), c.fold())); ids.push_back(tasks.back()->getID()); }
  cg::CombiParameters p((cg::DimType)c.dim(), lv(c.lmin), lv(c.lmax), u8(c.bnd), ls, c.coeffs, ids, 10, 1, (cg::CombinationVariant)c.variant, c.procs, cg::LevelVector(0), lv(c.reduceLmax), c.chunk, c.fwd, "h", 9999, y.tlgroup[s]);
  basesUnlessDefault(p, c.basis, c.bnd); if (!c.dec.empty()) p.setDecomposition(decOf(c.dec));
  {
    PM man(pg, tasks, p, std::move(lm)); man.runfirst(); size_t k = 0; int step = 0, nm = 0;
    vector<vector<double>> at = {vector<double>(c.dim(), 0.5), vector<double>(c.dim(), 0.3)}; { vector<double> x(c.dim(), 0.125); x[0] = 0.8125; at.push_back(x); }
    for (char o : y.script) {
      S when = hz::fmt("system %d command %c (%d)", s, o, ++step);
      if (strchr("RTFfCP", o)) ++k;
      const World& W = h.snap[s][k];
      switch (o) {
        case 'u': case 'x': { size_t n = man.unifySubspaceSizesThirdLevel(o == 'x'), e = o == 'x' ? h.sharedSize : h.unionSize; REQ(n == e, "%s: %zu points to exchange, expected %zu", when.c_str(), n, e); } break;
        case 'R': man.runnext(); break;
        case 'C': man.combine(); break;
        case 'p': { size_t n = man.pretendUnifySubspaceSizesThirdLevel(); REQ(n == h.ownSize[s], "%s: %zu points, expected %zu", when.c_str(), n, h.ownSize[s]); } break;
        case 'P': man.pretendCombineThirdLevelForWorkers(); break;
        case 'T': man.combineThirdLevel(); break;
        case 'F': case 'f': { auto nf = [&](int x, const char* t) { return hz::fmt("x%d_%d%s", x, step, t); };
          if (o == 'F') man.combineThirdLevelFileBased(nf(s, ""), nf(s, "_token"), nf(1 - s, ""), nf(1 - s, "_token"));
          else { man.combineThirdLevelFileBasedWrite(nf(s, ""), nf(s, "_token")); man.combineThirdLevelFileBasedReadReduce(nf(1 - s, ""), nf(1 - s, "_token")); } } break;
        case 'B': { size_t bad = man.pretendCombineThirdLevelForBroker({3, 1, 5}, true); REQ(bad == 0, "%s: %zu wrong values", when.c_str(), bad); } break;
        case 'M': {
          vector<vector<double>> x; vector<double> v; man.monteCarloThirdLevel(5, x, v); ++nm; REQ(x.size() == 5 && v.size() == 5, "%s: %zu coordinates, %zu values", when.c_str(), x.size(), v.size());
          if ((int)h.coords.size() < nm) h.coords.push_back(x); REQ(h.coords[nm - 1] == x, "%s: the systems use different coordinates", when.c_str());
          for (size_t i = 0; i < 5; ++i) { double e = h.snap[0][k].interpolate(x[i]) + h.snap[1][k].interpolate(x[i]); REQ(close(v[i], e), "%s: value %zu is %.15g, expected %.15g", when.c_str(), i, v[i], e); }
        } break;
        case 'I': { auto v = man.interpolateValues(at); for (size_t i = 0; i < at.size(); ++i) REQ(close(v[i], W.interpolate(at[i])), "%s: value %zu is %.15g, expected %.15g", when.c_str(), i, v[i], W.interpolate(at[i])); } break;
        case 'E': { S fn = hz::fmt("plot%d_%d", s, step); S raw = fn + ".raw"; man.parallelEval(lv(c.lmax), raw, y.tlgroup[s]); man.waitForAllGroupsToWait(); checkPlot(fn + "_0.raw", W, c.lmax, when.c_str()); } break;
        case '1': { auto n = man.getLpNorms(0); for (auto& x : n) { size_t i = std::find(ids.begin(), ids.end(), x.first) - ids.begin(); double m = 0; for (double v : W.g[i].v) m = std::max(m, std::fabs(v)); REQ(close(x.second, m), "%s: norm %.15g, expected %.15g", when.c_str(), x.second, m); } } break;
      }
    }
    man.exit(); for (auto& q : pg) q->waitStatus();
  }
  for (auto* t : tasks) delete t;
}
void body(const Two& y, Shared2& h, int rank, bool frag) {
  if (rank == 0) { for (auto& e : std::filesystem::directory_iterator(".")) if (e.is_regular_file()) std::filesystem::remove(e.path()); net::reset(true, frag); h = Shared2(); model(y, h); }
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Comm comm; MPI_Comm_split(MPI_COMM_WORLD, rank == 0 ? MPI_UNDEFINED : sysOfRank(y, rank), rank, &comm);
  if (rank == 0) {
    Params p; S port = "--port=9999", ns = "--numSystems=2", ch = "--chunksize=" + std::to_string(y.chunk); char* av[] = {(char*)"tlm", port.data(), ns.data(), ch.data()}; p.loadFromCmd(4, av);
    cg::ThirdLevelManager m(p); m.init();
    if (y.breaks) { int k = 0; for (auto& x : net::net().ends) if (x.second.peer > x.first) if (++k == y.breaks) { x.second.wfail = y.after; x.second.wkind = net::RESET; } }
    m.runtimeLoop(); m.writeStatistics("");
  } else {
    int s = sysOfRank(y, rank);
    cg::Stats::initialize(); cg::theMPISystem()->initWorldReusable(comm, y.ngroup[s], y.all.nprocs(), true, false);
    if (cg::theMPISystem()->getWorldRank() == cg::theMPISystem()->getManagerRankWorld()) manager(y, h, s); else worker(y, h, s);
    cg::Stats::finalize();
  }
  ++h.finished;
  MPI_Barrier(MPI_COMM_WORLD);
  if (rank == 0) for (auto& x : net::net().ends) REQ(y.breaks || x.second.got == x.second.in.size(), "%zu bytes were sent and never received", x.second.in.size() - x.second.got);
}
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C17");
  bool T = h.thorough();
  auto add = [&](Two y, int bound, bool frag) {
    const Cfg& c = y.all; int n[2] = {0, 0}; for (int s : y.sysOf) ++n[s];
    if (n[0] < y.ngroup[0] || n[1] < y.ngroup[1] || y.tlgroup[0] >= y.ngroup[0] || y.tlgroup[1] >= y.ngroup[1]) return;
    if (y.script.find('x') != S::npos && y.ngroup != IV{1, 1}) return;   // the extra sparse grid lives in the output group
    for (int d = 0; d < c.dim(); ++d) if (c.procs[d] > npoints(c.lmin[d], c.bnd[d])) return;
    h.add(hz::fmt("%s v%d groups%s third%s procs%s l%s-%s b%s systems%s chunk=%ld%s bound=%d%s", y.script.c_str(), c.variant, hz::vs(y.ngroup).c_str(), hz::vs(y.tlgroup).c_str(), hz::vs(c.procs).c_str(), hz::vs(c.lmin).c_str(), hz::vs(c.lmax).c_str(), hz::vs(c.bnd).c_str(), hz::vs(y.sysOf).c_str(), (long)y.chunk, frag ? " fragments" : "", bound, y.breaks ? hz::fmt(" system %d breaks off", y.breaks).c_str() : ""), [=](hz::Ctx& c) {
      auto sh = std::make_shared<Shared2>();
      for (int m = 0; m < (bound || y.breaks ? 1 : 4) && !c.failed; ++m) {
        vmpi::Options o; o.nranks = ranksOf(y); o.rendezvous = m & 1; o.lateDelivery = m & 1; o.syncColl = !(m & 2); o.reverseSched = m & 2; o.bound = bound; if (bound) { o.schedChoice = true; o.preemptAt = vmpi::PT_USER; o.maxExec = T ? 60000 : 20000; }
        if (!y.breaks) c.check(hz::fmt("mode%d", m), o, [=](int r) { body(y, *sh, r, frag); }, [=](const vmpi::Result&) -> S { return sh->finished == ranksOf(y) ? "" : "not all ranks finished"; });
        else {
          long total = 1;
          for (long at = 0; at < total && !c.failed; ++at) {
            Two z = y; z.after = at; auto sent = std::make_shared<long>(0); auto broke = std::make_shared<bool>(false);
            // an error ends the whole run; whatever was reported until then has to be right
            c.checkEither(hz::fmt("after byte %ld", at), o, [=](int r) {
              try { body(z, *sh, r, frag); } catch (std::exception& e) { for (auto& x : net::net().ends) *broke = *broke || x.second.wfailed; REQ(*broke, "exception without a broken connection: %s", e.what()); vmpi::fail("reported", e.what()); }
              if (r == 0) for (auto& x : net::net().ends) *sent = std::max(*sent, (long)x.second.sent);
            }, "reported");
            c.progressMark();
            c.count(1); if (at == 0) total = 4000; if (*sent && *sent < at) break;
          }
        }
        c.count(1);
      }
      c.nontriv();
    });
  };
  auto cfg = [](IV lmin, IV lmax, IV b, IV p, int variant) { Cfg f; f.lmin = lmin; f.lmax = lmax; f.bnd = b; for (int x : b) f.basis.push_back(x == 1 ? HATP : HAT); f.procs = p; f.variant = variant; f.fwd = false; classical(lmin, lmax, f.levels, f.coeffs); return f; };
  auto two = [&](const Cfg& f, IV ng, IV tl, IV sysOf, const S& sc, size_t chunk = 131072) { Two y; y.all = f; y.ngroup = ng; y.tlgroup = tl; y.sysOf = sysOf; y.script = sc; y.chunk = chunk; y.breaks = 0; y.after = -1; return y; };
  // all distributions of the grids over the systems, layouts, third-level groups
  for (auto& mm : vector<std::pair<IV, IV>>{{{1, 1}, {2, 2}}, {{1, 1}, {3, 3}}, {{1, 2}, {2, 4}}, {{1, 1}, {4, 4}}}) for (auto& b : vector<IV>{{2, 2}, {1, 2}, {0, 1}}) for (auto& p : vector<IV>{{1, 1}, {2, 1}, {1, 2}, {2, 2}}) for (auto& ng : vector<IV>{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}}) for (auto& tl : cube(2, 0, 2)) {
    Cfg f = cfg(mm.first, mm.second, b, p, 0); int G = (int)f.levels.size(); auto as = cube(G, 0, 1); size_t st = G < 7 ? 1 : T ? 3 : 11 * (tl[0] + tl[1] ? 7 : 3) * (prod(p) > 2 ? 3 : 1), k0 = prod(p) + ng[0]; 
    for (size_t k = k0 % st; k < as.size(); k += st) for (auto* sc : {"uTRT", "xTRTI"}) add(two(f, ng, tl, as[k], sc), 0, false);
  }
  // scripts
  for (auto* sc : {"uTM", "uTE", "uT1I", "uTRTRT", "xTM", "xTRTRTM", "uBT", "uTCT", "uTRCRT", "xTCRT", "uTBMT", "MuT", "CuTRT", "BxT", "uMTM", "pP", "pPRPI", "uPRT", "uTRP", "pPuTRT"}) for (auto& ng : vector<IV>{{1, 1}, {2, 1}, {2, 2}}) for (auto& p : vector<IV>{{1, 1}, {1, 2}}) for (auto& b : vector<IV>{{2, 2}, {1, 0}})
    for (auto& as : vector<IV>{{0, 0, 0, 1, 1}, {0, 1, 0, 1, 0}, {1, 1, 0, 0, 1}}) add(two(cfg({1, 1}, {3, 3}, b, p, 0), ng, {ng[0] - 1, 0}, as, sc), 0, false);
  // file-based exchange commanded by the manager
  for (auto* sc : {"xF", "xFRF", "xf", "xfRf", "xTRF"}) for (auto& ng : vector<IV>{{1, 1}, {2, 1}, {2, 2}}) for (auto& p : vector<IV>{{1, 1}, {1, 2}}) for (auto& as : vector<IV>{{0, 0, 0, 1, 1}, {0, 1, 0, 1, 0}}) add(two(cfg({1, 1}, {3, 3}, {2, 1}, p, 0), ng, {0, 0}, as, sc), 0, false);
  // schedules and fragmentation
  for (auto* sc : {"uT", "xT", "uTRT", "uM", "uB"}) for (auto& ng : vector<IV>{{1, 1}, {2, 1}}) for (size_t ch : {7ul, 131072ul}) for (int bd = 1; bd <= (T && ng[0] == 1 && (ch > 7 || strlen(sc) < 3) ? 2 : 1); ++bd) for (bool fr : {false, true}) add(two(cfg({1, 1}, {2, 2}, {2, 2}, {1, 1}, 0), ng, {0, 0}, {0, 0, 1}, sc, ch), bd, fr);
  // three dimensions, reduced level
  for (auto& ng : vector<IV>{{1, 1}, {2, 2}}) { Cfg f = cfg({1, 1, 1}, {2, 2, 2}, {2, 1, 0}, {2, 1, 1}, 0); for (auto& as : cube((int)f.levels.size(), 0, 1)) { add(two(f, ng, {0, 0}, as, "uTRT"), 0, false); } Cfg g = cfg({1, 1}, {3, 3}, {2, 2}, {1, 2}, 0); g.reduceLmax = {1, 1}; for (auto& as : cube((int)g.levels.size(), 0, 1)) { add(two(g, ng, {0, 0}, as, "uTRT"), 0, false); add(two(g, ng, {0, 0}, as, "xTRT"), 0, false); } }
  // a system breaks off
  for (auto* sc : {"uT", "xT", "uM"}) for (int br : {1, 2}) { Two y = two(cfg({1, 1}, {2, 2}, {2, 2}, {1, 1}, 0), {1, 1}, {0, 0}, {0, 0, 1}, sc); y.breaks = br; add(y, 0, false); }
  h.rule = "after every exchange all grids of both systems equal the sequential combination of all grids of both, exchanged sizes, interpolated values and coordinates agree, every byte sent is received, no execution deadlocks; with a broken connection nothing is reported wrongly";
  h.bounds = "two systems of 1-3 groups with 1-4 processes, a manager each and the broker; schemes of 3-5 grids in two dimensions and 4 in three, distributions of the grids over the systems (every n-th for schemes of 7 and more), all third-level groups, 4 library modes; one deviation of schedule or fragmentation at network calls for small layouts; a connection broken at every byte";
  h.assumptions = {"both systems use the same levels, decomposition and order of commands", "sparseGridReduce, the variant the third-level commands support"};
  return h.run();
}
