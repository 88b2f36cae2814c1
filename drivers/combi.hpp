// Reference combination and a deterministic solver task for the drivers that run whole combinations.
#pragma once
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/vector.hpp>
#include "common.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "mpi/MPISystem.hpp"
#include "task/Task.hpp"
#include "utils/BoostExports.hpp"
namespace cg = combigrid;

namespace ref {
inline int levelSalt(const IV& l) { int s = 3; for (int x : l) s = s * 17 + x; return s % 100003; }
// value the solver of the grid with level l adds at global point i in the given step (field: which of several grids of one task)
inline double solverValue(const IV& l, long i, int step, int field = 0) { return val(i, levelSalt(l) + 7919 * step + 104729 * field); }

constexpr double JUMP = 1e16 / 3;   // full mantissa: sums round
struct Cfg {
  IV lmin, lmax, bnd, basis, procs; vector<IV> dec;     // dec: lower bounds at lmax; empty: default
  vector<IV> levels; vector<double> coeffs; IV group;   // component grids and the group each belongs to
  int ngroup = 1, variant = 0, nfields = 1; uint32_t chunk = 64; IV reduceLmax; bool fwd = false; vector<bool> hdims;   // hdims: hierarchized dimensions, empty: all
  bool jump = false;                                    // huge values before the first run, moderate ones afterwards (rounding residues must not survive)
  int dim() const { return (int)lmin.size(); }
  int nprocs() const { return (int)prod(procs); }
  int workers() const { return ngroup * nprocs(); }
  IV fold() const { IV f(dim()); for (int d = 0; d < dim(); ++d) f[d] = basisPeriodic(basis[d]) && bnd[d] == 2; return f; }
};
inline IV foldPoint(IV x, const IV& n, const IV& fold) { for (size_t d = 0; d < x.size(); ++d) if (fold[d] && x[d] == n[d] - 1) x[d] = 0; return x; }

// subspaces of the sparse grid between lmin and lmax (lmax reduced)
struct LevelSet {
  IV rl; int n;
  LevelSet(const IV& lmin, IV lmax, const IV& red) { for (size_t d = 0; d < red.size(); ++d) lmax[d] = std::max(lmin[d], lmax[d] - red[d]); n = 1 << 20; for (size_t d = 0; d < lmin.size(); ++d) n = std::min(n, lmax[d] - lmin[d]); rl.resize(lmin.size()); for (size_t d = 0; d < lmin.size(); ++d) rl[d] = lmax[d] - n; }
  bool has(const IV& s) const { int t = 0; for (size_t d = 0; d < s.size(); ++d) t += std::max(0, s[d] - rl[d]); return t <= n; }
  vector<IV> all() const { IV hi(rl.size()); for (size_t d = 0; d < rl.size(); ++d) hi[d] = rl[d] + n; vector<IV> o; for (auto& s : box(IV(rl.size(), 1), hi)) if (has(s)) o.push_back(s); std::sort(o.begin(), o.end()); return o; }
};

// sequential model of the whole computation
struct World {
  Cfg c; vector<Grid> g; int step = 0; vector<int> gstep;   // gstep: steps each grid has made
  std::map<vector<long>, double> sparse;    // hierarchical coefficients after the last combination
  int fld; vector<World> more;              // which field this is; the other fields (only in field 0)
  explicit World(const Cfg& cc, bool zero = false, int f = 0) : c(cc), fld(f) { for (int k = 1; f == 0 && k < c.nfields; ++k) more.emplace_back(cc, zero, k); for (auto& l : c.levels) { Grid x(l, c.bnd); if (!zero) for (long i = 0; i < x.size(); ++i) x.v[i] = initial(x, i); g.push_back(x); } gstep.assign(g.size(), 0); }
  double initial(const Grid& x, long i) const { return (c.jump ? JUMP : 1.) * solverValue(x.levels, lin(foldPoint(unlin(i, x.n), x.n, c.fold()), x.n), 0, fld); }
  void runGrid(size_t k) { auto& x = g[k]; ++gstep[k]; for (long i = 0; i < x.size(); ++i) x.v[i] = (c.jump ? 0. : 0.5) * x.v[i] + solverValue(x.levels, lin(foldPoint(unlin(i, x.n), x.n, c.fold()), x.n), gstep[k], fld); }
  const World& field(int f) const { return f ? more[f - 1] : *this; }
  void run() { for (auto& m : more) m.run(); ++step; for (size_t k = 0; k < g.size(); ++k) runGrid(k); }
  IV hlmin() const { for (int b : c.bnd) if (b == 0) return IV(c.dim(), 0); return c.lmin; }
  vector<long> key(const Grid& x, long i) const { IV p = unlin(i, x.n); vector<long> k(c.dim()); for (int d = 0; d < c.dim(); ++d) k[d] = (long)(p[d] + (c.bnd[d] == 0)) << (20 - x.levels[d]); return k; }
  void hierarchize() { for (auto& m : more) m.hierarchize(); for (auto& x : g) transform(x, c.basis, hlmin(), true, c.hdims); }
  void dehierarchize() { for (auto& m : more) m.dehierarchize(); for (auto& x : g) transform(x, c.basis, hlmin(), false, c.hdims); }
  void reduce() { for (auto& m : more) m.reduce(); LevelSet S(c.lmin, c.lmax, c.reduceLmax); sparse.clear(); for (size_t k = 0; k < g.size(); ++k) for (long i = 0; i < g[k].size(); ++i) if (S.has(g[k].subspace(i))) sparse[key(g[k], i)] += c.coeffs[k] * g[k].v[i]; }
  void distribute() { for (auto& m : more) m.distribute(); for (auto& x : g) for (long i = 0; i < x.size(); ++i) { auto it = sparse.find(key(x, i)); if (it != sparse.end()) x.v[i] = it->second; } }
  void combine() { hierarchize(); reduce(); distribute(); dehierarchize(); }
  int find(const IV& l) const { for (size_t k = 0; k < g.size(); ++k) if (g[k].levels == l) return (int)k; return -1; }
  double interpolate(const vector<double>& x) const { double r = 0; for (size_t k = 0; k < g.size(); ++k) r += c.coeffs[k] * evalAt(g[k], x); return r; }
  // grid of the given level filled from the sparse grid
  Grid fill(const IV& l) const { Grid x(l, c.bnd); for (long i = 0; i < x.size(); ++i) { auto it = sparse.find(key(x, i)); if (it != sparse.end()) x.v[i] = it->second; } transform(x, c.basis, hlmin(), false, c.hdims); return x; }
};

// combination coefficients of a down-closed set of levels (inclusion-exclusion); zero coefficients dropped
inline void schemeOf(const vector<IV>& set, vector<IV>& levels, vector<double>& coeffs) {
  std::set<IV> S(set.begin(), set.end());
  for (auto& l : set) { int c = 0, dim = (int)l.size(); for (int m = 0; m < (1 << dim); ++m) { IV x = l; int k = 0; for (int d = 0; d < dim; ++d) if (m >> d & 1) { ++x[d]; ++k; } if (S.count(x)) c += k % 2 ? -1 : 1; } if (c != 0) { levels.push_back(l); coeffs.push_back(c); } }
}
// classical truncated scheme between lmin and lmax
inline void classical(const IV& lmin, const IV& lmax, vector<IV>& levels, vector<double>& coeffs) {
  LevelSet S(lmin, lmax, {}); vector<IV> set; for (auto& l : box(lmin, lmax)) { if (S.has(l)) set.push_back(l); }
  schemeOf(set, levels, coeffs);
}

// heap object shared by all ranks of an execution: what the tasks did
struct Recorder { struct Ev { int what; size_t id; int rank; int step; }; vector<Ev> ev; };  // what: 0 init, 1 run, 2 zero, 3 diagnostics, 4 destroyed
}  // namespace ref

inline ref::Recorder*& recorder() { static ref::Recorder* r = nullptr; return r; }

class VTask : public cg::Task<double> {
 public:
  VTask(const cg::LevelVector& l, const std::vector<cg::BoundaryType>& b, double c, cg::LoadModel* m, ref::IV fold, cg::FaultCriterion* f = nullptr, int nfields = 1) : cg::Task<double>(l, b, c, m, f ? f : new cg::StaticFaults({0, cg::IndexVector(0), cg::IndexVector(0)})), fold_(fold), nf_(nfields) {}
  ~VTask() override { rec(4); clear(); }
  void init(cg::CommunicatorType lcomm, const std::vector<cg::IndexVector>& decomposition) override {
    int nd = getDim(); std::vector<int> p(nd), per(nd), co(nd); MPI_Cart_get(lcomm, nd, p.data(), per.data(), co.data());
    clear();
    for (int f = 0; f < nf_; ++f) dfg_.push_back(new cg::OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lcomm, getBoundary(), p, fwd, decomposition));
    setStep(nsteps_, true); rec(0);
  }
  void run(cg::CommunicatorType) override { ++nsteps_; setStep(nsteps_, false); rec(1); setFinished(true); }
  cg::DistributedFullGrid<double>& getDistributedFullGrid(size_t n) override { return *dfg_.at(n); }
  const cg::DistributedFullGrid<double>& getDistributedFullGrid(size_t n) const override { return *dfg_.at(n); }
  double getCurrentTime() const override { return nsteps_; }
  void setZero() override { rec(2); for (auto* d : dfg_) d->setZero(); }
  void doDiagnostics() override { rec(3); }
  int steps() const { return nsteps_; }
  int fields() const { return nf_; }
  cg::FaultCriterion* fault() const { return faultCriterion_; }
  // global linear index of local point i, from its coordinates
  long globalOf(long i) const { std::vector<double> x(getDim()); dfg_[0]->getCoordsLocal(i, x); ref::IV p(getDim()), n(getDim()); for (int d = 0; d < getDim(); ++d) { n[d] = ref::npoints(getLevelVector()[d], getBoundary()[d]); p[d] = (int)std::lround(x[d] * (1 << getLevelVector()[d])) - (getBoundary()[d] == 0); } return ref::lin(p, n); }
  static inline bool fwd = false, jump = false;
 protected:
  VTask() {}
 private:
  friend class boost::serialization::access;
  ref::IV fold_; int nf_ = 1; std::vector<cg::OwningDistributedFullGrid<double>*> dfg_; int nsteps_ = 0;
  void clear() { for (auto* d : dfg_) delete d; dfg_.clear(); }
  void rec(int w) { if (recorder()) recorder()->ev.push_back({w, getID(), vmpi::rank(), nsteps_}); }
  void setStep(int s, bool fresh) {
    ref::IV l(getLevelVector().begin(), getLevelVector().end()), b(getBoundary().begin(), getBoundary().end()), n = ref::npoints(l, b);
    for (long i = 0; i < dfg_[0]->getNrLocalElements(); ++i) for (int f = 0; f < nf_; ++f) { double v = ref::solverValue(l, ref::lin(ref::foldPoint(ref::unlin(globalOf(i), n), n, fold_), n), s, f); double& x = dfg_[f]->getData()[i]; x = fresh ? v * (jump && s == 0 ? ref::JUMP : 1.) : jump ? v : 0.5 * x + v; }
  }
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<cg::Task<double>>(*this); ar & fold_; ar & nf_; ar & nsteps_; }
};
BOOST_CLASS_EXPORT(VTask)

namespace ref {
inline cg::LevelVector lv(const IV& v) { return cg::LevelVector(v.begin(), v.end()); }
inline vector<cg::IndexVector> decOf(const vector<IV>& d) { return vector<cg::IndexVector>(d.begin(), d.end()); }
inline void setBases(cg::CombiParameters& p, const IV& basis) {
  vector<cg::BasisFunctionBasis*> bs;
  for (int b : basis) bs.push_back(b == HAT ? (cg::BasisFunctionBasis*)new cg::HierarchicalHatBasisFunction() : b == HATP ? (cg::BasisFunctionBasis*)new cg::HierarchicalHatPeriodicBasisFunction() : b == FW ? (cg::BasisFunctionBasis*)new cg::FullWeightingBasisFunction() : b == FWP ? (cg::BasisFunctionBasis*)new cg::FullWeightingPeriodicBasisFunction() : b == BIO ? (cg::BasisFunctionBasis*)new cg::BiorthogonalBasisFunction() : (cg::BasisFunctionBasis*)new cg::BiorthogonalPeriodicBasisFunction());
  p.setHierarchicalBases(bs);
}
// leaves the choice to the constructor where it is the documented default
inline void basesUnlessDefault(cg::CombiParameters& p, const IV& basis, const IV& bnd) { for (size_t d = 0; d < bnd.size(); ++d) if (basis[d] != (bnd[d] == 1 ? HATP : HAT)) { setBases(p, basis); return; } }
inline cg::CombiParameters maskedParamsOf(const Cfg& c, const vector<size_t>& ids, int ncombi, int tlgroup) {
  vector<cg::LevelVector> ls; for (auto& l : c.levels) ls.push_back(lv(l));
  cg::CombiParameters p((cg::DimType)c.dim(), lv(c.lmin), lv(c.lmax), u8(c.bnd), ls, c.coeffs, c.hdims, ids, ncombi, c.nfields, (cg::CombinationVariant)c.variant, cg::LevelVector(0), lv(c.reduceLmax), c.chunk, c.fwd, "", 0, tlgroup);
  p.setParallelization(c.procs); basesUnlessDefault(p, c.basis, c.bnd);
  if (!c.dec.empty()) p.setDecomposition(decOf(c.dec));
  return p;
}
inline cg::CombiParameters paramsOf(const Cfg& c, int ncombi = 10) {
  if (!c.hdims.empty()) { vector<size_t> ids(c.levels.size()); for (size_t k = 0; k < ids.size(); ++k) ids[k] = k; return maskedParamsOf(c, ids, ncombi, 0); }
  cg::CombiParameters p((cg::DimType)c.dim(), lv(c.lmin), lv(c.lmax), u8(c.bnd), ncombi, c.nfields, (cg::CombinationVariant)c.variant, c.procs, cg::LevelVector(0), lv(c.reduceLmax), c.chunk, c.fwd);
  basesUnlessDefault(p, c.basis, c.bnd);
  if (!c.dec.empty()) p.setDecomposition(decOf(c.dec));
  return p;
}
inline cg::CombiParameters managerParamsOf(const Cfg& c, const vector<size_t>& ids, int ncombi = 10, int tlgroup = 0) {
  if (!c.hdims.empty()) return maskedParamsOf(c, ids, ncombi, tlgroup);
  vector<cg::LevelVector> ls; for (auto& l : c.levels) ls.push_back(lv(l));
  cg::CombiParameters p((cg::DimType)c.dim(), lv(c.lmin), lv(c.lmax), u8(c.bnd), ls, c.coeffs, ids, ncombi, c.nfields, (cg::CombinationVariant)c.variant, c.procs, cg::LevelVector(0), lv(c.reduceLmax), c.chunk, c.fwd, "", 0, tlgroup);
  basesUnlessDefault(p, c.basis, c.bnd);
  if (!c.dec.empty()) p.setDecomposition(decOf(c.dec));
  return p;
}
typedef cg::ProcessGroupWorker<double> Worker;
// worker-only set-up of one rank: communicators, parameters, own tasks
inline void setupWorker(const Cfg& c, Worker& w, MPI_Comm world, bool initDsg = true) {
  cg::theMPISystem()->initWorldReusable(world, c.ngroup, c.nprocs(), false, true);
  w.setCombiParameters(paramsOf(c));
  int grp = cg::theMPISystem()->getProcessGroupNumber();
  VTask::fwd = c.fwd; VTask::jump = c.jump;
  for (size_t k = 0; k < c.levels.size(); ++k) if (c.group[k] == grp) {
    auto t = std::make_unique<VTask>(lv(c.levels[k]), u8(c.bnd), c.coeffs[k], nullptr, c.fold(), nullptr, c.nfields); t->setID(k);
    w.initializeTask(std::move(t));
  }
  if (initDsg) { w.initCombinedDSGVector(); w.zeroDsgsData(); }
}
// compares the grids a worker holds with the model; returns the number of points compared
inline long compareTasks(const World& W, const Worker& w, const char* when) {
  long n = 0; const double scale = W.c.jump && W.step == 0 ? JUMP : 1.;
  for (const auto& t : w.getTasks()) {
    auto* v = dynamic_cast<VTask*>(t.get()); IV l(v->getLevelVector().begin(), v->getLevelVector().end()); int k = W.find(l);
    REQ(k >= 0, "%s: worker holds an unknown grid %s", when, hz::vs(l).c_str());
    REQ(v->fields() == W.c.nfields, "%s: grid %s has %d fields", when, hz::vs(l).c_str(), v->fields());
    REQ(v->steps() == W.gstep[k], "%s: grid %s has made %d steps, expected %d", when, hz::vs(l).c_str(), v->steps(), W.gstep[k]);
    REQ(v->getCoefficient() == W.c.coeffs[k], "%s: grid %s has coefficient %g, expected %g", when, hz::vs(l).c_str(), v->getCoefficient(), W.c.coeffs[k]);
    for (int f = 0; f < v->fields(); ++f) for (long i = 0; i < v->getDistributedFullGrid(f).getNrLocalElements(); ++i) { long gi = v->globalOf(i); double a = v->getDistributedFullGrid(f).getData()[i], b = W.field(f).g[k].v[gi]; REQ(close(a / scale, b / scale), "%s: grid %s%s point %s is %.15g, sequential combination %.15g", when, hz::vs(l).c_str(), f ? hz::fmt(" field %d", f).c_str() : "", hz::vs(unlin(gi, W.g[k].n)).c_str(), a, b); ++n; }
  }
  return n;
}
}  // namespace ref
