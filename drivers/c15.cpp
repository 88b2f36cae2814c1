// C15: parameters, tasks and input files arrive unchanged; all pairs of a value alphabet, all transports.
#include "fault_tolerance/WeibullFaults.hpp"
#include <typeinfo>
#include "io/BroadcastParameters.hpp"
#include "mgr.hpp"
#include "utils/MonteCarlo.hpp"
using namespace ref;
namespace {
struct Par {
  int dim = 2; IV lmin{1, 1}, lmax{3, 3}, bnd{2, 2}, basis{HAT, HAT}; vector<char> hdims{1, 1};
  vector<IV> levels{{1, 3}, {2, 2}, {3, 1}, {1, 2}, {2, 1}}; vector<double> coeffs{1, 1, 1, -1, -1}; vector<size_t> ids{0, 1, 2, 3, 4};
  size_t ncombi = 10; int ngrids = 1, variant = 0; IV procs{1, 1}; IV redMin, redMax; uint32_t chunk = 64; bool fwd = false; std::string host; unsigned short port = 0; size_t tlpg = 0; vector<IV> dec; bool masked = false, defBasis = false, bare = false; std::string uniform;
};
void bases(cg::CombiParameters& q, const Par& p) { if (!p.uniform.empty()) cg::setCombiParametersHierarchicalBasesUniform(q, p.uniform); else if (!p.defBasis) setBases(q, p.basis); }
IV basesOf(const Par& p) { if (!p.defBasis || !p.uniform.empty()) return p.basis; IV r; for (int b : p.bnd) r.push_back(b == 1 ? HATP : HAT); return r; }
cg::CombiParameters make(const Par& p) {
  vector<cg::LevelVector> ls; for (auto& l : p.levels) ls.push_back(lv(l));
  auto b = u8(p.bnd);
  if (p.masked) {
    vector<bool> hd; for (char c : p.hdims) hd.push_back(c);
    cg::CombiParameters q((cg::DimType)p.dim, lv(p.lmin), lv(p.lmax), b, ls, p.coeffs, hd, p.ids, p.ncombi, p.ngrids, (cg::CombinationVariant)p.variant, lv(p.redMin), lv(p.redMax), p.chunk, p.fwd, p.host, p.port, p.tlpg);
    q.setParallelization(p.procs); bases(q, p); if (!p.dec.empty()) q.setDecomposition(decOf(p.dec)); return q;
  }
  if (p.bare) {
    cg::CombiParameters q((cg::DimType)p.dim, lv(p.lmin), lv(p.lmax), b, p.ncombi, p.ngrids, (cg::CombinationVariant)p.variant, p.procs, lv(p.redMin), lv(p.redMax), p.chunk, p.fwd, p.host, p.port, p.tlpg);
    bases(q, p); if (!p.dec.empty()) q.setDecomposition(decOf(p.dec)); return q;
  }
  cg::CombiParameters q((cg::DimType)p.dim, lv(p.lmin), lv(p.lmax), b, ls, p.coeffs, p.ids, p.ncombi, p.ngrids, (cg::CombinationVariant)p.variant, p.procs, lv(p.redMin), lv(p.redMax), p.chunk, p.fwd, p.host, p.port, p.tlpg);
  bases(q, p); if (!p.dec.empty()) q.setDecomposition(decOf(p.dec)); return q;
}
bool isBasis(const cg::BasisFunctionBasis* b, int k) {
  if (!b) return false;
  const std::type_info& t = typeid(*b);
  return t == (k == HAT ? typeid(cg::HierarchicalHatBasisFunction) : k == HATP ? typeid(cg::HierarchicalHatPeriodicBasisFunction) : k == FW ? typeid(cg::FullWeightingBasisFunction) : k == FWP ? typeid(cg::FullWeightingPeriodicBasisFunction) : k == BIO ? typeid(cg::BiorthogonalBasisFunction) : typeid(cg::BiorthogonalPeriodicBasisFunction));
}
bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
void expect(const Par& p, cg::CombiParameters& q, const char* when) {
#define F(c, n) REQ(c, "%s: %s differs from what was sent", when, n)
  F(q.getDim() == p.dim, "dimension"); F(q.getLMin() == lv(p.lmin), "minimum level"); F(q.getLMax() == lv(p.lmax), "maximum level"); F(q.getBoundary() == u8(p.bnd), "boundary");
  F(q.getNumLevels() == (p.bare ? 0 : p.levels.size()), "number of levels");
  if (!p.bare) for (size_t i = 0; i < p.ids.size(); ++i) { F(q.getLevel(p.ids[i]) == lv(p.levels[i]), "level of a task"); F(same(q.getCoeff(p.ids[i]), p.coeffs[i]), "coefficient of a task"); }
  { vector<size_t> id; vector<double> c; q.getCoeffs(id, c); F(id.size() == (p.bare ? 0 : p.ids.size()), "number of coefficients"); for (size_t k = 0; k < id.size(); ++k) { size_t i = std::find(p.ids.begin(), p.ids.end(), id[k]) - p.ids.begin(); F(i < p.ids.size() && same(c[k], p.coeffs[i]), "coefficient in the list"); } }
  F(q.getHierarchizationDims() == vector<bool>(p.hdims.begin(), p.hdims.end()), "hierarchization dimensions");
  F((int)q.getHierarchicalBases().size() == p.dim, "number of bases"); for (int d = 0; d < p.dim; ++d) F(isBasis(q.getHierarchicalBases()[d], basesOf(p)[d]), "basis");
  F(q.isParallelizationSet() && q.getParallelization() == p.procs, "parallelization"); F(q.getDecomposition() == decOf(p.dec), "decomposition"); F(q.getForwardDecomposition() == p.fwd, "decomposition direction");
  F(q.getNumberOfCombinations() == p.ncombi, "number of combinations"); F(q.getNumGrids() == (size_t)p.ngrids, "number of grids"); F((int)q.getCombinationVariant() == p.variant, "variant");
  F(q.getLMaxReductionVector() == lv(p.redMax), "level reduction"); F(q.getChunkSizeInMebibybtePerThread() == p.chunk, "chunk size");
  F(q.getThirdLevelHost() == p.host, "third-level host"); F(q.getThirdLevelPort() == p.port, "third-level port"); F(q.getThirdLevelPG() == p.tlpg, "third-level group");
#undef F
}
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C15");
  bool T = h.thorough();
  typedef std::function<void(Par&)> Mod;
  struct V { std::string field, name; Mod m; };
  vector<V> vals;
  auto v = [&](const char* f, const char* n, Mod m) { vals.push_back({f, n, m}); };
  v("levels", "one", [](Par& p) { p.levels = {{2, 1}}; p.coeffs = {1}; p.ids = {0}; });
  v("levels", "bigids", [](Par& p) { p.ids = {7, size_t(1) << 40, 3, 4294967296ul, 2147483648ul}; });
  v("levels", "oddcoeff", [](Par& p) { p.coeffs = {1. / 3, -0.1, 1e-308, -1e300, 0.30000000000000004}; });
  v("levels", "tiny", [](Par& p) { p.coeffs = {1e-17, 123456789.12345679, -0.0, 2.2250738585072014e-308, 1}; });
  v("levels", "many", [](Par& p) { p.levels.clear(); p.coeffs.clear(); p.ids.clear(); for (int i = 0; i < 300; ++i) { p.levels.push_back({i + 1, 300 - i}); p.coeffs.push_back((i % 2 ? -1 : 1) * (i + 0.1)); p.ids.push_back(1000 - i); } });
  v("lmin", "mixed", [](Par& p) { p.lmin = {1, 3}; });
  v("lmin", "zero", [](Par& p) { p.lmin = {0, 2}; });
  v("lmax", "mixed", [](Par& p) { p.lmax = {19, 3}; });
  v("lmax", "mixed2", [](Par& p) { p.lmax = {3, 4}; });
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != 2 || b != 2) vals.push_back({"bnd", hz::fmt("%d%d", a, b), [=](Par& p) { p.bnd = {a, b}; }});
  for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) if (a || b) vals.push_back({"basis", hz::fmt("%d%d", a, b), [=](Par& p) { p.basis = {a, b}; }});
  for (int m = 0; m < 4; ++m) vals.push_back({"hdims", hz::fmt("%d", m), [=](Par& p) { p.masked = true; p.hdims = {char(m & 1), char(m >> 1)}; }});
  v("defaults", "bases", [](Par& p) { p.defBasis = true; }); v("ctor", "bare", [](Par& p) { p.bare = true; p.levels = {}; p.coeffs = {}; p.ids = {}; });
  { const char* nm[] = {"hat", "hat_periodic", "fullweighting", "fullweighting_periodic", "biorthogonal", "biorthogonal_periodic"}; int ks[] = {HAT, HATP, FW, FWP, BIO, BIOP}; for (int k = 0; k < 6; ++k) { std::string n = nm[k]; int b = ks[k]; vals.push_back({"basis", n, [=](Par& p) { p.uniform = n; p.basis = {b, b}; }}); } }
  v("ncombi", "0", [](Par& p) { p.ncombi = 0; }); v("ncombi", "big", [](Par& p) { p.ncombi = size_t(1) << 33; });
  v("ngrids", "3", [](Par& p) { p.ngrids = 3; });
  for (int a = 1; a < 4; ++a) vals.push_back({"variant", hz::fmt("%d", a), [=](Par& p) { p.variant = a; }});
  v("procs", "21", [](Par& p) { p.procs = {2, 1}; }); v("procs", "12", [](Par& p) { p.procs = {1, 2}; });
  v("red", "min", [](Par& p) { p.redMin = {1, 2}; }); v("red", "max", [](Par& p) { p.redMax = {2, 1}; }); v("red", "both", [](Par& p) { p.redMin = {1, 0}; p.redMax = {0, 1}; });
  v("chunk", "1", [](Par& p) { p.chunk = 1; }); v("chunk", "max", [](Par& p) { p.chunk = 4294967295u; });
  v("fwd", "1", [](Par& p) { p.fwd = true; });
  v("host", "name", [](Par& p) { p.host = "node-1.example.org"; }); v("host", "space", [](Par& p) { p.host = " a b\n22 1 0 "; }); v("host", "long", [](Par& p) { p.host = std::string(70000, 'x') + "y"; });
  v("port", "9999", [](Par& p) { p.port = 9999; }); v("port", "65535", [](Par& p) { p.port = 65535; });
  v("tlpg", "1", [](Par& p) { p.tlpg = 1; }); v("tlpg", "big", [](Par& p) { p.tlpg = size_t(1) << 35; });
  v("dec", "1", [](Par& p) { p.dec.clear(); for (int d = 0; d < 2; ++d) { IV x; for (int k = 0; k < p.procs[d]; ++k) x.push_back(k * 3); p.dec.push_back(x); } });
  v("dec", "2", [](Par& p) { p.dec.clear(); for (int d = 0; d < 2; ++d) { IV x; for (int k = 0; k < p.procs[d]; ++k) x.push_back(k ? 5 + d : 0); p.dec.push_back(x); } });
  // pairs of values of different fields (dec depends on procs: applied last)
  vector<std::pair<std::string, Par>> all; all.push_back({"base", Par()});
  for (auto& a : vals) { Par p; a.m(p); all.push_back({a.field + "=" + a.name, p}); }
  size_t singles = all.size();
  for (size_t i = 0; i < vals.size(); ++i) for (size_t j = i + 1; j < vals.size(); ++j) if (vals[i].field != vals[j].field) { Par p; vals[i].m(p); vals[j].m(p); all.push_back({vals[i].field + "=" + vals[i].name + " " + vals[j].field + "=" + vals[j].name, p}); }
  for (int d : {1, 3, 4, 6}) { Par p; p.dim = d; p.lmin.assign(d, 1); p.lmax.assign(d, 2); p.bnd.clear(); p.basis.clear(); p.hdims.assign(d, 1); p.procs.assign(d, 1); for (int k = 0; k < d; ++k) { p.bnd.push_back((k + d) % 3); p.basis.push_back((k * 5 + d) % 6); } p.levels.clear(); p.coeffs.clear(); p.ids.clear(); classical(p.lmin, p.lmax, p.levels, p.coeffs); for (size_t k = 0; k < p.levels.size(); ++k) p.ids.push_back(k); all.push_back({hz::fmt("dim=%d", d), p}); }
  auto modes = [](int n) { vector<std::pair<std::string, vmpi::Options>> r; vmpi::Options o; o.nranks = n; r.push_back({"buffered", o}); o.rendezvous = true; o.lateDelivery = true; o.syncColl = false; o.reverseSched = true; r.push_back({"weak", o}); return r; };
  // 0. the object of the manager itself, also after changing every coefficient
  for (auto& x : all) { Par p = x.second; if (p.bare) continue;
    h.add("local " + x.first, [=](hz::Ctx& c) { vmpi::Options o; o.nranks = 1; c.check("", o, [&](int) {
      auto q = make(p); expect(p, q, "constructed"); Par z = p;
      auto dict = [&] { REQ(q.getCombiDict().size() == z.levels.size() && q.getLevelsDict().size() == z.ids.size(), "dictionaries have the wrong size"); for (size_t i = 0; i < z.ids.size(); ++i) { REQ(q.getID(lv(z.levels[i])) == z.ids[i], "wrong id of a level"); REQ(same(q.getCombiDict()[lv(z.levels[i])], z.coeffs[i]), "wrong coefficient in the dictionary"); REQ(q.getLevelsDict()[z.ids[i]] == lv(z.levels[i]), "wrong level in the dictionary"); } };
      dict();
      for (size_t i = 0; i < std::min<size_t>(8, z.ids.size()); ++i) { z.coeffs[i] += 2.5; q.setCoeff(z.ids[i], z.coeffs[i]); expect(z, q, "coefficient set"); dict(); }
      for (auto& y : z.coeffs) y = -y; vector<cg::LevelVector> ls; for (auto& l : z.levels) ls.push_back(lv(l)); q.setLevelsCoeffs(z.ids, ls, z.coeffs); expect(z, q, "coefficients replaced"); dict();
    }); c.count(10); if (!c.failed) c.nontriv(); });
  }
  // 1. point to point and broadcast
  for (auto& x : all) {
    Par p = x.second;
    h.add("class " + x.first, [=](hz::Ctx& c) {
      for (auto& m : modes(3)) { c.check("send " + m.first, m.second, [&](int rk) { if (rk == 0) { auto q = make(p); cg::MPIUtils::sendClass(&q, 1, MPI_COMM_WORLD); cg::MPIUtils::sendClass(&q, 2, MPI_COMM_WORLD, 77); } else { cg::CombiParameters q = make(Par()); cg::MPIUtils::receiveClass(&q, 0, MPI_COMM_WORLD, rk == 1 ? (int)cg::TRANSFER_CLASS_TAG : 77); expect(p, q, "received"); } }); }
      for (int root = 0; root < 3; ++root) for (auto& m : modes(3)) c.check(hz::fmt("bcast%d ", root) + m.first, m.second, [&](int rk) { cg::CombiParameters q = rk == root ? make(p) : make(Par()); cg::MPIUtils::broadcastClass(&q, root, MPI_COMM_WORLD); expect(p, q, "broadcast"); });
      c.count(4 * 25); if (!c.failed) c.nontriv();
    });
  }
  // 2. manager to all workers: histories of two updates
  for (size_t i = 0; i < (T ? all.size() : singles); ++i) for (size_t j = 0; j < (T && i >= singles ? 1 : singles); ++j) for (int ng : {1, 2, 3}) {
    Par a = all[i].second, b = all[j].second;
    if (prod(a.procs) != prod(b.procs) || a.dim != 2) continue;
    if (ng == 3 && !T && (i * 7 + j) % 5) continue;
    h.add(hz::fmt("update g%d ", ng) + all[i].first + " then " + all[j].first, [=](hz::Ctx& c) {
      int np = (int)prod(a.procs);
      for (auto& m : modes(ng * np + 1)) c.check(m.first, m.second, [&](int) {
        cg::Stats::initialize(); cg::theMPISystem()->initWorldReusable(MPI_COMM_WORLD, ng, np, true, false);
        if (cg::theMPISystem()->getWorldRank() == cg::theMPISystem()->getManagerRankWorld()) {
          PGs pg; for (int g = 0; g < ng; ++g) pg.push_back(std::make_shared<cg::ProcessGroupManager<double>>(g));
          auto qa = make(a), qb = make(b);
          for (auto& p : pg) p->updateCombiParameters(qa);
          for (auto& p : pg) p->waitStatus();
          for (auto& p : pg) p->updateCombiParameters(qb);
          for (auto& p : pg) p->waitStatus();
          for (auto& p : pg) p->exit();
          for (auto& p : pg) p->waitStatus();
        } else {
          Worker w; cg::SignalType s = -1; int n = 0;
          while (s != cg::EXIT) { s = w.wait(); if (s == cg::UPDATE_COMBI_PARAMETERS) { auto q = w.getCombiParameters(); expect(n++ ? b : a, q, n ? "second update" : "first update");
            const Par& e = n > 1 ? b : a; MPI_Comm lc = cg::theMPISystem()->getLocalComm(); int dims[2], per[2], co[2]; MPI_Cart_get(lc, 2, dims, per, co); for (int d = 0; d < 2; ++d) REQ(dims[d] == e.procs[d] && per[d] == (e.bnd[d] == 1), "local communicator has extent %d and period %d in dimension %d", dims[d], per[d], d); } }
          REQ(n == 2, "%d updates arrived", n);
        }
        cg::Stats::finalize();
      });
      c.count(2 * 25 * ng * np); if (!c.failed) c.nontriv();
    });
  }
  // 3. tasks
  struct TV { std::string name; IV l, b; double co; size_t id; int steps; bool fin; };
  vector<TV> tv;
  for (auto& l : vector<IV>{{1, 1}, {0, 3}, {19, 2}, {2}, {1, 2, 3, 4, 5, 6}}) for (int bb = 0; bb < 3; ++bb) for (double co : {1., -1., 1. / 3, -0.1, 1e-300, 0.}) for (size_t id : {(size_t)0, (size_t)5, size_t(1) << 40}) for (bool fin : {false, true}) { IV b; for (size_t d = 0; d < l.size(); ++d) b.push_back(((int)d * bb + bb) % 3); tv.push_back({hz::fmt("task %s %s %g %zu %d", hz::vs(l).c_str(), hz::vs(b).c_str(), co, id, (int)fin), l, b, co, id, 0, fin}); }
  for (auto& t : tv) h.add(t.name, [=](hz::Ctx& c) {
    auto mk = [&] { auto* x = new VTask(lv(t.l), u8(t.b), t.co, nullptr, IV(t.l.size(), 1)); x->setID(t.id); x->setFinished(t.fin); return x; };
    auto ck = [&](cg::Task<double>* x, const char* when) { REQ(x && dynamic_cast<VTask*>(x), "%s: no task", when); REQ(x->getID() == t.id && x->getLevelVector() == lv(t.l) && x->getDim() == t.l.size() && x->getBoundary() == u8(t.b) && same(x->getCoefficient(), t.co) && x->isFinished() == t.fin, "%s: task differs", when); };
    for (auto& m : modes(3)) {
      c.check("send " + m.first, m.second, [&](int rk) { cg::Task<double>* x = nullptr; if (rk == 0) { x = mk(); cg::Task<double>::send(x, 1, MPI_COMM_WORLD); cg::Task<double>::receive(&x, 2, MPI_COMM_WORLD); } else { cg::Task<double>::receive(&x, rk - 1, MPI_COMM_WORLD); ck(x, "received"); cg::Task<double>::send(x, (rk + 1) % 3, MPI_COMM_WORLD); } ck(x, "forwarded"); });
      for (int root = 0; root < 3; ++root) c.check(hz::fmt("bcast%d ", root) + m.first, m.second, [&](int rk) { cg::Task<double>* x = rk == root ? mk() : nullptr; cg::Task<double>::broadcast(&x, root, MPI_COMM_WORLD); ck(x, "broadcast"); });
    }
    c.count(20); if (!c.failed) c.nontriv();
  });
  // the fault criterion of a task decides on the receiving rank as it would have on the sending one
  { vector<vector<std::pair<int, int>>> fl = {{}}; for (int i = 0; i < 9; ++i) { fl.push_back({{i / 3, i % 3}}); for (int j = 0; j < 9; ++j) { fl.push_back({{i / 3, i % 3}, {j / 3, j % 3}}); if (T) for (int k = 0; k < 9; ++k) fl.push_back({{i / 3, i % 3}, {j / 3, j % 3}, {k / 3, k % 3}}); } }
    for (auto& f : fl) { std::string nm = "fault list"; for (auto& x : f) nm += hz::fmt(" %d@%d", x.second, x.first); h.add(nm, [=](hz::Ctx& c) {
      auto mk = [=] { cg::IndexVector it, rk; for (auto& x : f) { it.push_back(x.first); rk.push_back(x.second); } return new VTask(lv({2, 1}), u8({2, 2}), 1, nullptr, {1, 1}, new cg::StaticFaults({(int)f.size(), it, rk})); };
      auto ck = [=](cg::Task<double>* x, const char* when) { auto* v = dynamic_cast<VTask*>(x); REQ(v && v->fault(), "%s: no fault criterion", when); for (int n = 0; n < 4; ++n) for (int r = 0; r < 4; ++r) { bool want = std::find(f.begin(), f.end(), std::make_pair(n, r)) != f.end(); REQ(v->fault()->failNow(n, 0.5, r) == want, "%s: rank %d %s in combination %d", when, r, want ? "does not fail" : "fails", n); } };
      for (auto& m : modes(3)) { c.check("send " + m.first, m.second, [&](int rk) { cg::Task<double>* x = nullptr; if (rk == 0) { x = mk(); ck(x, "made"); cg::Task<double>::send(x, 1, MPI_COMM_WORLD); cg::Task<double>::receive(&x, 2, MPI_COMM_WORLD); } else { cg::Task<double>::receive(&x, rk - 1, MPI_COMM_WORLD); ck(x, "received"); cg::Task<double>::send(x, (rk + 1) % 3, MPI_COMM_WORLD); } ck(x, "forwarded"); }); c.check("bcast " + m.first, m.second, [&](int rk) { cg::Task<double>* x = rk == 1 ? mk() : nullptr; cg::Task<double>::broadcast(&x, 1, MPI_COMM_WORLD); ck(x, "broadcast"); }); }
      c.count(16 * 6); if (!c.failed) c.nontriv(); }); }
    for (double la : {1e-3, 7., 1e5}) for (int nc : {1, 2, 5}) for (int fm = 0; fm < 2; ++fm) h.add(hz::fmt("random faults scale %g combinations %d masters %d", la, nc, fm), [=](hz::Ctx& c) {
      for (auto& m : modes(3)) c.check("bcast " + m.first, m.second, [&](int rk) {
        cg::theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, 3, false);
        cg::Task<double>* x = rk == 2 ? new VTask(lv({2, 1}), u8({2, 2}), 1, nullptr, {1, 1}, new cg::WeibullFaults(1e6, la, nc, fm)) : nullptr; cg::Task<double>::broadcast(&x, 2, MPI_COMM_WORLD); auto* f = dynamic_cast<VTask*>(x)->fault(); REQ(f, "no fault criterion");
        auto t0 = std::chrono::high_resolution_clock::now() - std::chrono::seconds(100); double t = f->init(t0, -1); REQ(std::abs(t / la - 1) < 0.01, "sampled time of a fault %g with scale %g", t, la);
        for (double tf : {50., 1e6}) { REQ(f->init(t0, tf) == tf, "given time of a fault not kept"); for (int n = 0; n < nc; ++n) { bool want = tf < 60 && n != nc - 1 && (fm || rk); REQ(f->failNow(n, 0, rk) == want, "rank %d %s in combination %d of %d", rk, want ? "does not fail" : "fails", n, nc); } }
      });
      c.count(6 * nc); if (!c.failed) c.nontriv(); });
  }
  // 4. files read on rank zero
  vector<std::string> contents = {"", "x", "\n", "ab\n", std::string(1, '\0'), std::string("a\0b", 3), "\r\n\xff\xfe", std::string(4095, 'q'), std::string(4096, 'r'), std::string(4097, 's'), std::string(65537, 't')};
  { std::string s; for (int i = 0; i < 256; ++i) s += (char)i; contents.push_back(s); std::string b; for (int i = 0; i < 2000; ++i) b += s; contents.push_back(b); }
  for (size_t k = 0; k < contents.size(); ++k) for (int n = 1; n <= 4; ++n) h.add(hz::fmt("file %zu ranks %d", k, n), [=](hz::Ctx& c) {
    { std::ofstream o("content.bin", std::ios::binary); o << contents[k]; }
    for (auto& m : modes(n)) c.check(m.first, m.second, [&](int rk) { if (rk) { if (chdir(".")) {} } auto s = cg::broadcastParameters::getFileContentsFromRankZero("content.bin", MPI_COMM_WORLD); REQ(s == contents[k], "rank %d has %zu bytes that differ from the file's %zu", rk, s.size(), contents[k].size()); });
    c.count(n * (long)contents[k].size()); if (!c.failed) c.nontriv();
  });
  for (int n = 1; n <= 4; ++n) h.add(hz::fmt("ini and json ranks %d", n), [=](hz::Ctx& c) {
    { std::ofstream o("p.ini"); o << "[ct]\ndim = 2\nlmin = 1 2\nlmax = 3 4\ncomment = a=b ; c\n[manager]\nngroup = 4\nempty =\n"; }
    { std::ofstream o("p.json"); o << "[ {\"level\": [1, 2], \"coeff\": -1.5, \"group_no\": 3}, {\"level\": [], \"s\": \"a\\\"\\u00e9\"} ]"; }
    for (auto& m : modes(n)) c.check(m.first, m.second, [&](int) {
      auto t = cg::broadcastParameters::getParametersFromRankZero("p.ini", MPI_COMM_WORLD);
      REQ(t.get<int>("ct.dim") == 2 && t.get<std::string>("ct.lmin") == "1 2" && t.get<std::string>("ct.comment") == "a=b ; c" && t.get<int>("manager.ngroup") == 4 && t.get<std::string>("manager.empty") == "" && t.size() == 2, "ini file differs");
      auto j = cg::broadcastParameters::getJsonFromRankZero("p.json", MPI_COMM_WORLD);
      REQ(j.size() == 2 && j.front().second.get<double>("coeff") == -1.5 && j.front().second.get<int>("group_no") == 3 && j.front().second.get_child("level").size() == 2 && j.back().second.get<std::string>("s") == "a\"\xc3\xa9", "json file differs");
    });
    c.nontriv();
  });
  // 5. coordinate lists
  for (int d = 1; d <= 6; ++d) for (int n = 1; n <= 5; ++n) h.add(hz::fmt("coordinates %d x %d", n, d), [=](hz::Ctx& c) {
    vmpi::Options o; o.nranks = 1;
    c.check("serial", o, [&](int) { vector<vector<double>> x; for (int i = 0; i < n; ++i) { x.push_back({}); for (int k = 0; k < d; ++k) x.back().push_back(val(i * 10 + k, 5)); } auto s = cg::serializeInterpolationCoords(x); REQ((int)s.size() == n * d, "%zu values", s.size()); REQ(cg::deserializeInterpolationCoords(s, (cg::DimType)d) == x, "coordinates differ"); });
    c.nontriv();
  });
  h.rule = "every value read on every rank equals (bit for bit) the value that was set";
  h.bounds = "all pairs of values of different parameter fields, all ordered pairs of single-field changes as update histories, 1-3 groups, 1-2 processes, buffered and fully asynchronous libraries";
  h.assumptions = {"parallelization changes keep the number of processes"};
  return h.run();
}
