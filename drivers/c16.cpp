// C16: thread-parallel sections. The real code, instrumented by the compiler's access callbacks, runs on the
// virtual OpenMP runtime: team sizes, orders of the members' shares and assignments of dynamic chunks are
// enumerated; all accesses between two barriers are checked for conflicts (whatever their order was), and the
// results are compared with those of one thread.
#include "combi.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "combicom/CombiCom.hpp"
#include "manager/InterpolationWorker.hpp"
#include "utils/LevelSetUtils.hpp"
using namespace ref;

typedef vector<double> Out;
typedef std::function<void(int, Out&)> Scenario;

static std::string where(const vmpi::RaceReport& r) {
  std::string cmd = "addr2line -Cfpie /proc/" + std::to_string(getpid()) + "/exe", o; int n = 0;
  extern char __executable_start;
  auto add = [&](void* p) { long d = (char*)p - &__executable_start; if (d > 0 && d < (1l << 30)) cmd += hz::fmt(" %lx", d - 1); };
  for (auto& p : r.pcs) { if (n++ >= 1) break; add(p.first); add(p.second); }
  for (auto p : r.chain) add(p);
  // of every (inlined) call chain the first location in the library's own sources
  if (FILE* f = popen(cmd.c_str(), "r")) {
    char b[4000]; bool done = false;
    while (fgets(b, sizeof b, f)) { std::string l = b; if (l.find(" (inlined by) ") != 0) done = false; auto a = l.find(" at "), s = l.find("/src/"); if (done || s == std::string::npos || a == std::string::npos) continue; done = true; auto e = l.find_first_of(" \n", s); o += " [" + l.substr(s + 1, e - s - 1) + "]"; }
    pclose(f);
  }
  if (getenv("C16_PCS")) if (FILE* f = popen(cmd.c_str(), "r")) { char b[4000]; while (fgets(b, sizeof b, f)) o += std::string("\n") + b; pclose(f); }
  return o;
}

static void runAll(hz::Ctx& c, int nranks, const Scenario& s, bool T, int bound) {
  auto base = std::make_shared<vector<Out>>(nranks);
  vmpi::raceReset(false);
  vmpi::Options o; o.nranks = nranks;
  if (!c.check("one thread", o, [=](int r) { (*base)[r].clear(); s(r, (*base)[r]); })) return;
  long nv = 0; for (auto& b : *base) nv += (long)b.size();
  long regions = 0;
  for (int t : T ? IV{2, 3, 4, 5, 8} : IV{2, 3, 8}) for (int order = 0; order < 3; ++order) {
    vmpi::Options q = o; q.ompThreads = t; q.ompOrder = order; bool ex = bound > 0 && t <= 3; q.ompChoice = ex; q.bound = ex ? bound : 0; q.maxExec = T ? 20000 : 4000; q.reverseSched = order == 1;
    auto got = std::make_shared<vector<Out>>(nranks);
    vmpi::raceReset(true);
    c.check(hz::fmt("%d threads, order %d", t, order), q,
            [=](int r) { (*got)[r].clear(); Out x; s(r, x); (*got)[r] = x; },
            [&](const vmpi::Result&) -> std::string {
              if (vmpi::races().found) return vmpi::races().msg + where(vmpi::races());
              for (int r = 0; r < nranks; ++r) {
                if ((*got)[r].size() != (*base)[r].size()) return hz::fmt("rank %d: %zu results, one thread gives %zu", r, (*got)[r].size(), (*base)[r].size());
                for (size_t i = 0; i < (*got)[r].size(); ++i) { double a = (*got)[r][i], b = (*base)[r][i]; if (!(close(a, b) || a == b || (std::isnan(a) && std::isnan(b)))) return hz::fmt("rank %d, value %zu: %.17g with %d threads, %.17g with one", r, i, a, t, b); }
              }
              return "";
            });
    regions += vmpi::races().regions; vmpi::raceReset(false);
    c.count(nv); c.progressMark();
    if (c.failed) return;
  }
  if (regions > 0) c.nontriv();
}

static std::unique_ptr<cg::BasisFunctionBasis> mk(int b) {
  switch (b) {
    case HAT: return std::make_unique<cg::HierarchicalHatBasisFunction>();
    case HATP: return std::make_unique<cg::HierarchicalHatPeriodicBasisFunction>();
    case FW: return std::make_unique<cg::FullWeightingBasisFunction>();
    case FWP: return std::make_unique<cg::FullWeightingPeriodicBasisFunction>();
    case BIO: return std::make_unique<cg::BiorthogonalBasisFunction>();
    default: return std::make_unique<cg::BiorthogonalPeriodicBasisFunction>();
  }
}
template <class V> void put(Out& o, const V& v) { for (auto x : v) o.push_back((double)x); }
static void putG(Out& o, const cg::DistributedFullGrid<double>& g) { for (long i = 0; i < g.getNrLocalElements(); ++i) o.push_back(g.getData()[i]); }
static void putS(Out& o, const cg::DistributedSparseGridUniform<double>& s) { put(o, s.getSubspaceDataSizes()); o.push_back((double)s.getRawDataSize()); for (size_t i = 0; i < s.getRawDataSize(); ++i) o.push_back(s.getRawData()[i]); }

// one grid, one sparse grid: transforms, norms, interpolation, exchange with the sparse grid
static void grids(const IV& l, const IV& b, const IV& p, const IV& ba, const IV& lmin, Out& o) {
  typedef cg::DistributedSparseGridUniform<double> SG;
  int dim = (int)l.size(); MPI_Comm comm = cart(MPI_COMM_WORLD, p, b); int me; MPI_Comm_rank(comm, &me); IV n = npoints(l, b);
  {
    auto fill = [&](cg::DistributedFullGrid<double>& g, int salt) { for (long i = 0; i < g.getNrLocalElements(); ++i) { std::vector<double> x(dim); g.getCoordsLocal((int)i, x); IV q(dim); for (int d = 0; d < dim; ++d) { q[d] = (int)std::lround(x[d] * (1 << l[d])) - (b[d] == 0); if (basisPeriodic(ba[d]) && b[d] == 2 && q[d] == n[d] - 1) q[d] = 0; } g.getData()[i] = val(lin(q, n), salt); } };
    cg::OwningDistributedFullGrid<double> g((cg::DimType)dim, lv(l), comm, u8(b), p), g2((cg::DimType)dim, lv(l), comm, u8(b), p);
    fill(g, 3); fill(g2, 8);
    for (int q : {0, 1, 2}) o.push_back(g.getLpNorm(q));
    std::vector<std::vector<cg::real>> xs; for (int k = 0; k < 7; ++k) { std::vector<cg::real> x(dim); for (int d = 0; d < dim; ++d) x[d] = (double)((k * 5 + d * 3) % 17) / 16.; xs.push_back(x); }
    put(o, g.getInterpolatedValues(xs));
    vector<std::unique_ptr<cg::BasisFunctionBasis>> own; vector<cg::BasisFunctionBasis*> bs; for (int x : ba) { own.push_back(mk(x)); bs.push_back(own.back().get()); }
    cg::LevelVector lm = lv(lmin); vector<bool> dims(dim, true);
    cg::DistributedHierarchization::hierarchize<double>(g, dims, bs, lm); putG(o, g);
    cg::DistributedHierarchization::hierarchize<double>(g2, dims, bs, lm);
    IV one(dim, 1);
    SG s((cg::DimType)dim, lv(l), lv(one), comm), s2((cg::DimType)dim, lv(l), lv(one), comm);
    s.registerDistributedFullGrid(g); put(o, s.getSubspaceDataSizes());
    s2.maxReduceSubspaceSizes(s); put(o, s2.getSubspaceDataSizes());
    s.createSubspaceData(); s.createKahanBuffer(); s.setZero(); s2.createSubspaceData(); s2.createKahanBuffer();
    s.addDistributedFullGrid(g, 2.0); s.addDistributedFullGrid(g2, -1.0); putS(o, s);
    s2.copyDataFrom(s); putS(o, s2);
    s2.accumulateMinMaxCoefficients();
    // registering and reducing again while data exist
    SG s3((cg::DimType)dim, lv(l), lv(one), comm); s3.registerDistributedFullGrid(g); s3.createSubspaceData(); s3.registerDistributedFullGrid(g2); s3.maxReduceSubspaceSizes(s); put(o, s3.getSubspaceDataSizes());
    // a part of the subspaces
    std::set<int32_t> half; for (int i = 0; i < (int)s3.getNumSubspaces(); i += 2) half.insert(i);
    s3.allocateDifferentSubspaces(std::move(half)); bool some = s3.getRawDataSize() > 0; if (some) { s3.addDistributedFullGrid<false>(g, 0.5); s3.addDistributedFullGrid<false>(g2, 3); } putS(o, s3);
    g.setZero(); o.push_back((double)g.extractFromUniformSG(s2)); putG(o, g); if (some) o.push_back((double)g2.extractFromUniformSG<false>(s3)); putG(o, g2);
    cg::DistributedHierarchization::dehierarchize<double>(g, dims, bs, lm); putG(o, g);
    cg::DistributedHierarchization::dehierarchize<double>(g2, dims, bs, lm); putG(o, g2);
  }
  MPI_Comm_free(&comm);
}

int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C16"); bool T = h.thorough();
  auto addGrid = [&](IV l, IV b, IV p, IV ba, IV lmin, int bound) {
    for (size_t d = 0; d < l.size(); ++d) { if (p[d] > npoints(l[d], b[d])) return; if (b[d] == 0) { ba[d] = HAT; } if (b[d] == 1 && !basisPeriodic(ba[d]) && ba[d] != HAT) return; }
    for (int x : b) if (x == 0) lmin = IV(l.size(), 0);
    std::string id = "grid l" + hz::vs(l) + "b" + hz::vs(b) + "p" + hz::vs(p) + "m" + hz::vs(lmin) + ":"; for (int x : ba) id += std::string(basisName(x)) + ",";
    h.add(id, [=](hz::Ctx& c) { runAll(c, (int)prod(p), [=](int, Out& o) { grids(l, b, p, ba, lmin, o); }, T, bound); });
  };
  for (int ba = 0; ba < 6; ++ba) for (int b = 0; b < 3; ++b) {
    if (b == 0 && ba) continue;
    for (int L : {1, 3}) for (int p = 1; p <= 3; ++p) addGrid({L}, {b}, {p}, {ba}, {0}, p == 1 ? 1 : T);
    for (auto& p : vector<IV>{{1, 1}, {2, 1}, {1, 2}, {2, 2}}) { addGrid({2, 3}, {b, 2 - b}, p, {ba, ba}, {1, 0}, prod(p) == 1 ? (T ? 2 : 1) : T); if (T || ba < 3) addGrid({3, 2}, {b, b}, p, {ba, (ba + 2) % 6}, {0, 1}, prod(p) == 1); }
    if (T || ba % 2) { addGrid({2, 1, 2}, {b, 1, 2}, {1, 1, 1}, {ba, HATP, BIO}, {1, 1, 1}, T); addGrid({1, 2, 2}, {2, b, b}, {2, 1, 1}, {FW, ba, ba}, {0, 0, 0}, 0); }
  }
  addGrid({1, 2, 1, 2}, {2, 1, 2, 1}, {1, 1, 1, 1}, {HAT, HATP, BIO, FWP}, {0, 0, 0, 0}, 0);
  // whole combinations
  auto addCombi = [&](IV lmin, IV lmax, IV bnd, IV procs, int ngroup, int variant, IV red, int bound, int chunk) {
    Cfg f; f.lmin = lmin; f.lmax = lmax; f.bnd = bnd; f.procs = procs; f.ngroup = ngroup; f.variant = variant; f.reduceLmax = red; f.chunk = chunk;
    for (int b : bnd) f.basis.push_back(b == 1 ? HATP : HAT);
    for (size_t d = 0; d < lmin.size(); ++d) if (procs[d] > npoints(lmin[d], bnd[d])) return;
    classical(lmin, lmax, f.levels, f.coeffs); if ((int)f.levels.size() < ngroup) return; for (size_t k = 0; k < f.levels.size(); ++k) f.group.push_back((int)(k % ngroup));
    h.add("combi l" + hz::vs(lmin) + hz::vs(lmax) + "b" + hz::vs(bnd) + "p" + hz::vs(procs) + hz::fmt(" groups %d variant %d red", ngroup, variant) + hz::vs(red), [=](hz::Ctx& c) {
      runAll(c, f.workers(), [=](int, Out& o) {
        auto w = std::make_unique<Worker>(); setupWorker(f, *w, MPI_COMM_WORLD);
        for (int step = 0; step < 2; ++step) {
          w->runAllTasks(); w->combineAtOnce(step == 1);
          for (auto& t : w->getTasks()) putG(o, t->getDistributedFullGrid(0));
        }
        for (int q : {0, 1}) put(o, w->getLpNorms(q));
        std::vector<std::vector<cg::real>> xs; for (int k = 0; k < 6; ++k) { std::vector<cg::real> x(f.dim()); for (int d = 0; d < f.dim(); ++d) x[d] = (double)((k * 5 + d * 3) % 17) / 16.; xs.push_back(x); }
        put(o, w->interpolateValues(xs));
      }, T, bound);
    });
  };
  for (int v = 0; v < 4; ++v) {
    for (int ng = 1; ng <= 3; ++ng) for (auto& b : vector<IV>{{2, 2}, {1, 1}, {0, 2}}) { addCombi({1, 1}, {3, 3}, b, {1, 1}, ng, v, {0, 0}, ng == 1 || T, 64); if (T || b[0] == 2) addCombi({1, 1}, {3, 3}, b, {2, 1}, ng, v, {1, 1}, T && ng < 2, 64); }
    addCombi({1, 1, 1}, {2, 2, 2}, {2, 1, 2}, {1, 1, 1}, 2, v, {0, 0, 0}, T, 1); addCombi({2, 1}, {4, 3}, {1, 2}, {1, 2}, 2, v, {1, 0}, 0, 1);
  }
  h.rule = "with every team size, order of the members' shares and assignment of chunks: no two members access the same byte between two barriers with at least one write and no common lock, and all results equal those of one thread";
  h.bounds = T ? "team sizes 2,3,4,5,8; three base orders (ascending, descending, chunks handed out in turn) and all orders within 1-2 deviations for team sizes 2 and 3; grids of 1-4 dimensions with 1-4 processes and all bases; combinations of 1-3 groups in all variants" : "team sizes 2,3,8; three base orders (ascending, descending, chunks handed out in turn) and, for undistributed cases, all orders within one deviation for team sizes 2 and 3; grids of 1-4 dimensions with 1-4 processes and all bases; combinations of 1-3 groups in all variants";
  h.assumptions = {"nested parallel regions run on one thread, as with one active level", "conflicts inside the MPI library, the C++ runtime and third-party libraries are not monitored", "initialisers of function-local statics are synchronised by the C++ runtime"};
  return h.run();
}
