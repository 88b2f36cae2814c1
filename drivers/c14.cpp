// C14: subspace sizes, subspace-to-group assignment and subspace data of the distributed sparse grid.
#include "combi.hpp"
#include "canary.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include "combicom/CombiCom.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"
#include <complex>
using namespace ref;
int subspace_writer_main(int argc, char** argv);
namespace {
// points of subspace s (levels, boundary points belong to level 1) that lie between finest indices lo and hi at level lmax
long pointsIn(const IV& s, const IV& bnd, const IV& lmax, const IV& lo, const IV& hi) {
  long r = 1;
  for (size_t d = 0; d < s.size(); ++d) { int off = bnd[d] == 0, k = 0; for (int i = 0; i < npoints(s[d], bnd[d]); ++i) if (subspace1d(i, s[d], bnd[d]) == s[d]) { int f = ((i + off) << (lmax[d] - s[d])) - off; if (f >= lo[d] && f < hi[d]) ++k; } r *= k; }
  return r;
}
bool leq(const IV& a, const IV& b) { for (size_t d = 0; d < a.size(); ++d) if (a[d] > b[d]) return false; return true; }
vector<IV> decOfCfg(const Cfg& c) { if (!c.dec.empty()) return c.dec; vector<IV> r; for (int d = 0; d < c.dim(); ++d) r.push_back(defaultSplit(npoints(c.lmax[d], c.bnd[d]), c.procs[d], c.fwd)); return r; }

// ------------------------------------------------------------------ registration in several groups
long checkRegistration(const Cfg& c, Worker& w, const char* when, bool extra) {
  int grp = cg::theMPISystem()->getProcessGroupNumber(), pos = cg::theMPISystem()->getLocalRank();
  auto& dsg = *w.getCombinedDSGVector()[0]; auto dec = decOfCfg(c); IV lo, hi; bounds(npoints(c.lmax, c.bnd), c.procs, dec, pos, lo, hi);
  LevelSet S(c.lmin, c.lmax, c.reduceLmax); auto all = S.all(); long n = 0;
  auto& lvs = dsg.getAllLevelVectors(); REQ(lvs.size() == all.size() && (size_t)dsg.getNumSubspaces() == all.size(), "%s: %d subspaces instead of %d", when, (int)lvs.size(), (int)all.size());
  std::map<IV, int> at; for (size_t i = 0; i < lvs.size(); ++i) at[IV(lvs[i].begin(), lvs[i].end())] = (int)i;
  std::map<int, vector<int>> groupsOf;           // subspace -> groups having points of it on this position
  for (auto& s : all) {
    REQ(at.count(s), "%s: subspace %s is missing", when, hz::vs(s).c_str()); int i = at[s]; REQ(dsg.getIndex(lv(s)) == i, "%s: index of subspace %s", when, hz::vs(s).c_str());
    std::set<int> have; for (size_t k = 0; k < c.levels.size(); ++k) if (leq(s, c.levels[k])) have.insert(c.group[k]);
    long pts = pointsIn(s, c.bnd, c.lmax, lo, hi); if (pts > 0) groupsOf[i].assign(have.begin(), have.end()); else groupsOf[i] = {};
    bool mine = have.count(grp); long expect = c.variant == 0 ? (have.empty() ? 0 : pts) : c.variant == 1 ? (mine ? pts : 0) : (mine || have.size() > 1 ? pts : 0);
    REQ((long)dsg.getDataSize(i) == expect, "%s: group %d position %d has size %ld for subspace %s, %ld of its points are there and %d groups hold it", when, grp, pos, (long)dsg.getDataSize(i), hz::vs(s).c_str(), pts, (int)have.size()); ++n;
  }
  for (auto& l : cube(c.dim(), 1, *std::max_element(c.lmax.begin(), c.lmax.end()) + 1)) if (!at.count(l)) REQ(dsg.getIndex(lv(l)) < 0, "%s: %s is found although it is not contained", when, hz::vs(l).c_str());
  // subspaces by communicator
  std::map<int, vector<int>> seen; auto& byComm = dsg.getSubspacesByCommunicator();
  if (c.variant == 0) REQ(byComm.empty(), "%s: subspace communicators with the full reduction", when);
  MPI_Comm glob = cg::theMPISystem()->getGlobalReduceComm(); MPI_Group gg; MPI_Comm_group(glob, &gg);
  for (auto& e : byComm) {
    MPI_Group g; MPI_Comm_group(e.first, &g); int m; MPI_Group_size(g, &m); vector<int> r(m), t(m); std::iota(r.begin(), r.end(), 0); MPI_Group_translate_ranks(g, m, r.data(), gg, t.data()); std::sort(t.begin(), t.end()); MPI_Group_free(&g);
    for (auto i : e.second) { REQ(!seen.count(i), "%s: subspace %d is reduced twice", when, (int)i); seen[i] = t; }
  }
  MPI_Group_free(&gg);
  if (c.variant != 0) for (auto& g : groupsOf) {
    bool many = g.second.size() > 1, me = std::count(g.second.begin(), g.second.end(), grp); auto it = seen.find(g.first);
    if (c.variant == 1) { REQ((it != seen.end()) == (many && me), "%s: group %d position %d %s subspace %s, held by groups %s", when, grp, pos, it == seen.end() ? "does not reduce" : "reduces", hz::vs(lvs[g.first]).c_str(), hz::vs(g.second).c_str()); if (it != seen.end()) REQ(it->second == g.second, "%s: subspace %s is reduced among groups %s but held by %s", when, hz::vs(lvs[g.first]).c_str(), hz::vs(it->second).c_str(), hz::vs(g.second).c_str()); }
    else if (it != seen.end()) { REQ(many, "%s: subspace %s is exchanged but held by groups %s", when, hz::vs(lvs[g.first]).c_str(), hz::vs(g.second).c_str()); for (int q : g.second) REQ(std::count(it->second.begin(), it->second.end(), q), "%s: group %d holds subspace %s but does not take part in its reduction", when, q, hz::vs(lvs[g.first]).c_str()); }
    else REQ(!(many && me), "%s: group %d position %d does not reduce subspace %s, held by groups %s", when, grp, pos, hz::vs(lvs[g.first]).c_str(), hz::vs(g.second).c_str());
  }
  if (c.variant >= 2) {   // in-group subspaces: held by this group only
    auto in = dsg.getIngroupSubspaces(); for (auto& g : groupsOf) { bool me = std::count(g.second.begin(), g.second.end(), grp); REQ(in.count(g.first) == (me && g.second.size() == 1 ? 1 : 0), "%s: subspace %s is %s the in-group subspaces of group %d, held by %s", when, hz::vs(lvs[g.first]).c_str(), in.count(g.first) ? "in" : "not in", grp, hz::vs(g.second).c_str()); }
  }
  if (c.variant != 3) {   // data of different subspaces is disjoint and inside the raw data
    size_t total = 0; for (size_t i = 0; i < lvs.size(); ++i) total += dsg.getDataSize(i); REQ(dsg.getRawDataSize() == total, "%s: %zu values for subspaces of %zu points", when, dsg.getRawDataSize(), total);
    vector<char> used(total, 0); for (size_t i = 0; i < lvs.size(); ++i) for (size_t k = 0; k < dsg.getDataSize(i); ++k) { long o = dsg.getData((int)i) + k - dsg.getRawData(); REQ(o >= 0 && o < (long)total && !used[o], "%s: data of subspace %s overlaps another one", when, hz::vs(lvs[i]).c_str()); used[o] = 1; }
  }
  if (extra) {            // two-step exchange of the sizes gives the same result as the one-step one, for every collecting rank
    int ng; MPI_Comm_size(glob, &ng); auto& ds = dsg.getSubspaceDataSizes(); auto want = ds;
    for (int root = 0; root < ng && c.variant == 0; ++root) {
      for (size_t i = 0; i < lvs.size(); ++i) { IV s(lvs[i].begin(), lvs[i].end()); bool mine = false; for (size_t k = 0; k < c.levels.size(); ++k) if (c.group[k] == grp && leq(s, c.levels[k])) mine = true; if (!mine) ds[i] = 0; }
      cg::CombiCom::maxReduceSubspaceSizesAcrossGroups(dsg, root, glob); if (cg::theMPISystem()->getGlobalReduceRank() == root) REQ(ds == want, "%s: sizes collected on group %d differ", when, root);
      cg::CombiCom::broadcastSubspaceSizes(dsg, glob, root); REQ(ds == want, "%s: sizes sent by group %d differ", when, root);
    }
  }
  return n;
}

// ------------------------------------------------------------------ subspace data of one group
template <class T> T mk(double v) { return T(v); }
template <> std::complex<double> mk(double v) { return {v, -v - 1}; }
template <> std::complex<float> mk(double v) { return {(float)v, (float)(-v - 1)}; }
struct Fg { IV levels; };
long keyOf(const IV& x, const IV& l, const IV& b, const IV& lmax) { long k = 0; for (size_t d = 0; d < l.size(); ++d) { int off = b[d] == 0; k = k * 64 + ((x[d] + off) << (lmax[d] - l[d])); } return k; }
template <class T> struct Dist {   // a distributed full grid with the coordinates of its local points
  cg::OwningDistributedFullGrid<T> g; vector<IV> sub; vector<long> key; IV l;
  Dist(const IV& lev, MPI_Comm comm, const IV& bnd, const IV& procs, const IV& lmax, const vector<IV>& dec) : g((cg::DimType)lev.size(), lv(lev), comm, u8(bnd), procs, true, cg::downsampleDecomposition(decOf(dec), lv(lmax), lv(lev), u8(bnd))), l(lev) {
    for (long i = 0; i < g.getNrLocalElements(); ++i) { std::vector<double> x(lev.size()); g.getCoordsLocal((int)i, x); IV p(lev.size()), s(lev.size()); for (size_t d = 0; d < lev.size(); ++d) { p[d] = (int)std::lround(x[d] * (1 << lev[d])) - (bnd[d] == 0); s[d] = subspace1d(p[d], lev[d], bnd[d]); } sub.push_back(s); key.push_back(keyOf(p, lev, bnd, lmax)); }
  }
};
template <class T> long dataOf(const IV& lmin, const IV& lmax, const IV& bnd, const IV& procs, const vector<IV>& dec, const vector<IV>& grids, bool partial) {
  MPI_Barrier(MPI_COMM_WORLD); canary::mark();
  int me; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm comm = cart(MPI_COMM_WORLD, procs, bnd); long n = 0;
  { cg::DistributedSparseGridUniform<T> dsg((cg::DimType)lmin.size(), lv(lmax), lv(lmin), comm); auto lvs = dsg.getAllLevelVectors(); int ns = (int)lvs.size();
  IV lo, hi; bounds(npoints(lmax, bnd), procs, dec, me, lo, hi); std::map<IV, int> at; for (int i = 0; i < ns; ++i) at[IV(lvs[i].begin(), lvs[i].end())] = i;
  vector<std::unique_ptr<Dist<T>>> D; for (auto& l : grids) D.push_back(std::make_unique<Dist<T>>(l, comm, bnd, procs, lmax, dec));
  for (size_t k = 0; k < grids.size(); ++k) { dsg.registerDistributedFullGrid(D[k]->g);
    for (auto& a : at) { bool in = false; for (size_t j = 0; j <= k; ++j) in |= leq(a.first, grids[j]); long e = in ? pointsIn(a.first, bnd, lmax, lo, hi) : 0; REQ((long)dsg.getDataSize(a.second) == e, "after registering %s: subspace %s has size %ld instead of %ld", hz::vs(grids[k]).c_str(), hz::vs(a.first).c_str(), (long)dsg.getDataSize(a.second), e); ++n; } }
  auto value = [](long key, int grid) { return (double)((key * 7 + grid * 13) % 501); };
  size_t tot = 0; for (int i = 0; i < ns; ++i) tot += dsg.getDataSize((size_t)i);
  // allocated subsets: everything, and (partial) every subset of up to 5 subspaces or every single one
  vector<std::set<int>> subsets; { std::set<int> f; for (int i = 0; i < ns; ++i) f.insert(i); subsets.push_back(f); if (partial) { if (ns <= 5) for (int m = 1; m < (1 << ns) - 1; ++m) { std::set<int> s; for (int i = 0; i < ns; ++i) if (m >> i & 1) s.insert(i); subsets.push_back(s); } else { for (int i = 0; i < ns; ++i) { subsets.push_back({i}); auto g = f; g.erase(i); subsets.push_back(g); } std::set<int> od; for (int i = 1; i < ns; i += 2) od.insert(i); subsets.push_back(od); } subsets.push_back(f); } }
  for (size_t q = 0; q < subsets.size(); ++q) {
    auto& A = subsets[q]; bool full = (int)A.size() == ns; size_t sz = 0; for (int i : A) sz += dsg.getDataSize((size_t)i);
    if (q == 0) { if (tot == 0) continue; dsg.createSubspaceData(); } else dsg.allocateDifferentSubspaces(std::set<int32_t>(A.begin(), A.end()));
    REQ(canary::intact(), "allocating the subspaces wrote outside of its memory"); REQ(dsg.getRawDataSize() == sz, "%zu values allocated for subspaces of %zu points", dsg.getRawDataSize(), sz);
    if (q) { REQ(std::set<int>(dsg.getCurrentlyAllocatedSubspaces().begin(), dsg.getCurrentlyAllocatedSubspaces().end()) == A, "allocated subspaces differ"); for (int i = 0; i < ns; ++i) REQ(dsg.getAllocatedDataSize(i) == (A.count(i) ? dsg.getDataSize((size_t)i) : 0u), "allocated size of subspace %d is %d", i, (int)dsg.getAllocatedDataSize(i)); }
    if (sz == 0) continue;
    for (size_t i = 0; i < sz; ++i) REQ(dsg.getRawData()[i] == T(0), "freshly allocated subspaces are not zero");
    std::map<long, double> model; std::map<long, int> subOf;   // point -> sum
    for (int round = 0; round < 2; ++round) for (size_t k = 0; k < D.size(); ++k) {
      for (long i = 0; i < D[k]->g.getNrLocalElements(); ++i) D[k]->g.getData()[i] = mk<T>(value(D[k]->key[i], (int)k));
      double cf = k % 2 ? -1 : 2; if (full) dsg.addDistributedFullGrid(D[k]->g, cf); else dsg.template addDistributedFullGrid<false>(D[k]->g, cf);
      for (size_t i = 0; i < D[k]->key.size(); ++i) { auto it = at.find(D[k]->sub[i]); if (it != at.end() && A.count(it->second)) model[D[k]->key[i]] += cf * value(D[k]->key[i], (int)k), subOf[D[k]->key[i]] = it->second; }
      // every subspace holds exactly the sums of its points
      std::map<int, vector<double>> expect; std::map<long, double> cnt; for (auto& m : model) expect[subOf[m.first]].push_back(m.second);
      for (int i : A) { vector<double> have, e = expect[i]; for (size_t j = 0; j < dsg.getDataSize((size_t)i); ++j) have.push_back(std::real(dsg.getData(i)[j])); e.resize(std::max(e.size(), have.size()), 0.0); std::sort(have.begin(), have.end()); std::sort(e.begin(), e.end()); for (size_t j = 0; j < have.size(); ++j) REQ(close(have[j], e[j], 1e-5), "subspace %s holds %g instead of %g after adding %s", hz::vs(lvs[i]).c_str(), have[j], e[j], hz::vs(grids[k]).c_str()); n += (long)have.size(); }
      // reading back: points of contained subspaces get the sum, the others keep their value
      for (size_t j = 0; j < D.size(); ++j) {
        for (long i = 0; i < D[j]->g.getNrLocalElements(); ++i) D[j]->g.getData()[i] = mk<T>(77777);
        size_t cp = full ? D[j]->g.extractFromUniformSG(dsg) : D[j]->g.template extractFromUniformSG<false>(dsg), ec = 0;
        for (size_t i = 0; i < D[j]->key.size(); ++i) { auto it = at.find(D[j]->sub[i]); bool in = it != at.end() && A.count(it->second) && dsg.getDataSize((size_t)it->second) > 0; double e = 77777; if (in) { ++ec; auto m = model.find(D[j]->key[i]); e = m == model.end() ? 0 : m->second; } double v = std::real(D[j]->g.getData()[i]); REQ(close(v, e, 1e-5), "grid %s, subspace %s: point is %g instead of %g", hz::vs(D[j]->l).c_str(), hz::vs(D[j]->sub[i]).c_str(), v, e); }
        REQ(cp == ec, "%zu points copied, %zu belong to the sparse grid", cp, ec);
      }
    }
    dsg.setZero(); for (size_t i = 0; i < sz; ++i) REQ(dsg.getRawData()[i] == T(0), "setZero leaves values");
    REQ(canary::intact(), "using the subspaces wrote outside of their memory");
  }
  MPI_Comm_free(&comm); }
  REQ(canary::intact(), "memory written outside of its block");
  return n;
}

// ------------------------------------------------------------------ histories of operations on two sparse grids of the same shape
template <class T> void history(const vector<int>& ops, const vector<int>& sizes) {
  canary::mark();
  typedef cg::DistributedSparseGridUniform<T> SG; int ns = 4; vector<cg::LevelVector> lvs = {{1, 1}, {1, 2}, {2, 1}, {3, 1}};
  SG x(2, lvs, MPI_COMM_SELF), y(2, lvs, MPI_COMM_SELF); for (int i = 0; i < ns; ++i) { x.setDataSize(i, sizes[i]); y.setDataSize(i, sizes[i]); }
  cg::DistributedSparseGridDataContainer<T> spare(x);
  struct M { std::map<int, vector<double>> d; bool created = false; }; M mx, my, ms;
  auto fill = [&](SG& s, M& m, int salt) { for (auto& e : m.d) for (size_t j = 0; j < e.second.size(); ++j) { e.second[j] = salt * 100 + e.first * 10 + (double)j; s.getData(e.first)[j] = mk<T>(e.second[j]); } };
  auto create = [&](SG& s, M& m, const std::set<int>& A, bool alloc) { if (alloc) s.allocateDifferentSubspaces(std::set<int32_t>(A.begin(), A.end())); else s.createSubspaceData(); m.d.clear(); for (int i : A) m.d[i] = vector<double>(sizes[i], 0.0); m.created = false; for (auto& e : m.d) if (!e.second.empty()) m.created = true; };
  std::set<int> all{0, 1, 2, 3}; 
  auto check = [&](SG& s, M& m, const char* who, int op) {
    REQ(s.isSubspaceDataCreated() == m.created, "%s after operation %d: data %s", who, op, m.created ? "missing" : "present"); if (!m.created) return; size_t tot = 0;
    for (auto& e : m.d) { tot += e.second.size(); for (size_t j = 0; j < e.second.size(); ++j) REQ(s.getData(e.first)[j] == mk<T>(e.second[j]) || (e.second[j] == 0 && s.getData(e.first)[j] == T(0)), "%s after operation %d: subspace %d value %d is %g instead of %g", who, op, e.first, (int)j, (double)std::real(s.getData(e.first)[j]), e.second[j]); }
    REQ(s.getRawDataSize() == tot, "%s after operation %d: %d values instead of %d", who, op, (int)s.getRawDataSize(), (int)tot); REQ(canary::intact(), "%s: operation %d wrote outside of its memory", who, op);
  };
  create(x, mx, all, false); create(y, my, all, false); fill(x, mx, 1); fill(y, my, 2); int salt = 3;
  for (int o : ops) {
    switch (o) {
      case 0: fill(x, mx, salt++); break;
      case 1: x.setZero(); for (auto& e : mx.d) for (auto& v : e.second) v = 0; break;
      case 2: x.copyDataFrom(y); for (auto& e : mx.d) if (my.d.count(e.first)) e.second = my.d[e.first]; break;
      case 3: { vector<int32_t> v; for (auto& e : mx.d) if (e.first % 2 && my.d.count(e.first)) v.push_back(e.first); x.copyDataFrom(y, v); for (int i : v) mx.d[i] = my.d[i]; } break;
      case 4: create(x, mx, {0, 2}, true); break;
      case 5: create(y, my, {1, 2, 3}, true); fill(y, my, salt++); break;
      case 6: create(x, mx, all, true); break;
      case 7: { M t = mx; x.swapDataContainers(spare); mx = ms; ms = t; if (!mx.created) create(x, mx, all, true); } break;
      case 8: { std::set<int32_t> v; for (auto& e : my.d) if (e.first > 0 && mx.d.count(e.first)) v.insert(e.first); y.copyDataFrom(x, v); for (int i : v) my.d[i] = mx.d[i]; } break;
      case 9: x.maxReduceSubspaceSizes(y); mx.created = false; create(x, mx, all, true); for (int i = 0; i < ns; ++i) REQ((int)x.getDataSize(i) == sizes[i], "sizes changed"); break;
    }
    check(x, mx, "first grid", o); check(y, my, "second grid", o);
  }
}
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C14");
  bool T = h.thorough();
  // A: registration; every assignment of the grids to the groups that leaves no group empty
  struct A { IV lmin, lmax, procs; int ng, nb; long ndec; IV red; };
  vector<A> as = {{{1}, {4}, {1}, 2, 3, 1, {}}, {{1}, {3}, {4}, 2, 3, 20, {}}, {{1, 1}, {2, 2}, {1, 1}, 3, 9, 1, {}}, {{1, 1}, {3, 3}, {1, 1}, 2, 9, 1, {}}, {{1, 1}, {3, 3}, {1, 1}, 3, 9, 1, {}}, {{1, 1}, {3, 3}, {1, 1}, 4, 3, 1, {}}, {{1, 1}, {3, 3}, {1, 1}, 5, 1, 1, {}}, {{1, 1}, {3, 3}, {2, 1}, 2, 9, 7, {}}, {{1, 1}, {3, 3}, {2, 2}, 2, 3, 4, {}}, {{2, 1}, {4, 3}, {1, 2}, 3, 2, 3, {}},
    {{1, 1}, {3, 3}, {2, 1}, 2, 2, 3, {1, 1}}, {{1, 1}, {4, 4}, {1, 1}, 2, 3, 1, {1, 1}}, {{2, 2}, {4, 4}, {1, 1}, 2, 2, 1, {1, 0}}, {{1, 1, 1}, {2, 2, 2}, {1, 1, 1}, 2, 27, 1, {}}, {{1, 1, 1}, {2, 2, 2}, {1, 2, 1}, 2, 3, 3, {}}, {{1, 1, 1}, {3, 3, 3}, {1, 1, 1}, 2, 1, 1, {}}, {{1, 2, 1}, {3, 2, 3}, {2, 1, 2}, 2, 2, 2, {}}};
  for (auto& a : as) {
    vector<IV> lev; vector<double> cf; classical(a.lmin, a.lmax, lev, cf); int d = (int)a.lmin.size(), nb = 0;
    for (auto& b : cube(d, 0, 2)) {
      if (nb++ >= (T ? 27 : a.nb)) break; IV bnd(d); for (int i = 0; i < d; ++i) bnd[i] = 2 - b[i];   // with boundary first
      if (ndecs(npoints(a.lmax, bnd), a.procs) < 1) continue;
      bool fits = true; for (int i = 0; i < d; ++i) if (a.procs[i] > npoints(a.lmin[i], bnd[i])) fits = false; if (!fits) continue;
      auto decs_ = decList(npoints(a.lmax, bnd), a.procs, T ? a.ndec * 4 : a.ndec); 
      for (size_t di = 0; di < decs_.size(); ++di) for (int var = 0; var < 4; ++var) h.add(hz::fmt("register %s..%s boundary=%s procs=%s groups=%d split=%s variant=%d reduce=%s", hz::vs(a.lmin).c_str(), hz::vs(a.lmax).c_str(), hz::vs(bnd).c_str(), hz::vs(a.procs).c_str(), a.ng, decs(decs_[di]).c_str(), var, hz::vs(a.red).c_str()), [=](hz::Ctx& c) {
        Cfg f; f.lmin = a.lmin; f.lmax = a.lmax; f.bnd = bnd; f.procs = a.procs; f.dec = decs_[di]; f.ngroup = a.ng; f.variant = var; f.levels = lev; f.coeffs = cf; f.reduceLmax = a.red.empty() ? IV(d, 0) : a.red; for (int b1 : bnd) f.basis.push_back(b1 == 1 ? HATP : HAT);
        int nt = (int)lev.size(); auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = a.ng * (int)prod(a.procs); long k = 0, step = 1; double tot = std::pow(a.ng, nt); while (tot / step > (T ? 2500 : 400)) ++step;
        for (auto& g : cube(nt, 0, a.ng - 1)) {
          std::set<int> u(g.begin(), g.end()); if ((int)u.size() < a.ng) continue; if (k++ % step) continue; f.group = g;
          c.check("groups=" + hz::vs(g), o, [=](int) { cg::Stats::initialize(); Worker* w = new Worker; setupWorker(f, *w, MPI_COMM_WORLD); long m = checkRegistration(f, *w, "registration", k % 5 == 1); *n += m; delete w; cg::Stats::finalize(); });
          if (c.failed) return; if (k % 16 == 0) c.progressMark();
        }
        c.count(*n); c.nontriv();
      });
    }
  }
  // A2: many groups (the sets of groups are bit sets inside)
  for (int ng : T ? IV{9, 17, 31, 32, 33, 34, 40, 48, 63, 64} : IV{9, 31, 32, 33, 40, 63, 64}) for (int var = 0; var < 4; ++var) for (int bt = 0; bt < 3; ++bt) h.add(hz::fmt("register many groups=%d variant=%d boundary=%d", ng, var, bt), [=](hz::Ctx& c) {
    Cfg f; f.lmin = {1, 1, 1}; f.lmax = {7, 7, 7}; f.bnd = IV(3, bt); f.procs = {1, 1, 1}; f.ngroup = ng; f.variant = var; f.reduceLmax = IV(3, 0); f.basis = IV(3, bt == 1 ? HATP : HAT); classical(f.lmin, f.lmax, f.levels, f.coeffs);
    int nt = (int)f.levels.size(); auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = ng;
    for (int k = 0; k < (T ? 24 : 6); ++k) {     // round robin from several starts, in both directions, and everything but one grid per group in one group
      f.group.assign(nt, 0); for (int t = 0; t < nt; ++t) { int q = (t * (k % 2 ? nt - 1 : 1) + 7 * k) % nt; f.group[t] = k % 3 == 2 ? (q < ng ? q : (5 * k + ng / 2) % ng) : q % ng; }
      if ((int)std::set<int>(f.group.begin(), f.group.end()).size() < ng) continue;
      c.check("groups=" + hz::vs(f.group), o, [=](int) { cg::Stats::initialize(); Worker* w = new Worker; setupWorker(f, *w, MPI_COMM_WORLD); *n += checkRegistration(f, *w, "registration", false); delete w; cg::Stats::finalize(); });
      if (c.failed) return; c.progressMark();
    }
    c.count(*n); c.nontriv();
  });
  // B: subspace data for one group
  struct B { IV lmin, lmax, procs; vector<vector<IV>> sets; long ndec; int nb; bool partial; };
  vector<B> bs = {{{1}, {3}, {1}, {{{3}}, {{2}, {3}}, {{3}, {1}}}, 1, 3, true}, {{1}, {3}, {3}, {{{3}, {2}}, {{2}}}, 99, 3, true}, {{1, 1}, {2, 2}, {1, 1}, {{{2, 1}}, {{1, 2}, {2, 1}}, {{1, 1}, {2, 2}}}, 1, 9, true}, {{1, 1}, {3, 3}, {1, 1}, {{{2, 2}, {3, 1}}, {{1, 3}, {3, 1}}, {{3, 3}, {2, 1}}}, 1, 9, true}, {{1, 1}, {3, 3}, {2, 1}, {{{2, 2}, {3, 1}}, {{1, 3}, {3, 1}, {1, 2}}}, 7, 9, true}, {{1, 1}, {3, 3}, {2, 2}, {{{2, 2}, {1, 3}}, {{3, 1}, {2, 1}}}, 16, 4, true}, {{2, 2}, {4, 3}, {1, 3}, {{{4, 2}, {3, 3}}}, 12, 3, false},
    {{1, 1, 1}, {2, 2, 2}, {1, 1, 1}, {{{2, 1, 1}, {1, 1, 2}}, {{2, 2, 2}}}, 1, 27, true}, {{1, 1, 1}, {3, 3, 3}, {2, 1, 2}, {{{2, 2, 1}, {1, 1, 3}}}, 6, 3, false}};
  for (auto& b : bs) {
    int d = (int)b.lmin.size(), nb = 0;
    for (auto& q : cube(d, 0, 2)) {
      if (nb++ >= (T ? 27 : b.nb)) break; IV bnd(d); for (int i = 0; i < d; ++i) bnd[i] = 2 - q[i]; bool fits = true; for (int i = 0; i < d; ++i) if (b.procs[i] > npoints(b.lmax[i], bnd[i])) fits = false; if (!fits) continue;
      for (auto& dec : decList(npoints(b.lmax, bnd), b.procs, T ? b.ndec * 4 : b.ndec)) for (size_t si = 0; si < b.sets.size(); ++si) h.add(hz::fmt("data %s..%s boundary=%s procs=%s split=%s grids=%d", hz::vs(b.lmin).c_str(), hz::vs(b.lmax).c_str(), hz::vs(bnd).c_str(), hz::vs(b.procs).c_str(), decs(dec).c_str(), (int)si), [=](hz::Ctx& c) {
        vmpi::Options o; o.nranks = (int)prod(b.procs); auto n = std::make_shared<long>(0); auto run = [&](const char* name, auto t, int thr) { if (c.failed) return; typedef decltype(t) X; vmpi::Options oo = o; oo.ompThreads = thr; c.check(hz::fmt("%s threads=%d", name, thr), oo, [=](int) { *n += dataOf<X>(b.lmin, b.lmax, bnd, b.procs, dec, b.sets[si], b.partial); }); };
        run("double", double(), 1); run("float", float(), 1); run("complex<double>", std::complex<double>(), 1); run("complex<float>", std::complex<float>(), 1); run("double", double(), 3);
        c.count(*n); c.nontriv();
      });
    }
  }
  // C: histories
  vector<IV> szs = {{1, 2, 3, 1}, {2, 0, 1, 2}, {0, 3, 0, 1}, {1, 1, 0, 0}};
  for (int first = 0; first < 10; ++first) for (int second = 0; second < 10; ++second) for (size_t z = 0; z < szs.size(); ++z) h.add(hz::fmt("history sizes=%s ops=%d,%d,...", hz::vs(szs[z]).c_str(), first, second), [=](hz::Ctx& c) {
    vmpi::Options o; o.nranks = 1; long n = 0;
    for (auto& rest : cube(T ? 4 : 3, 0, 9)) { IV ops{first, second}; ops.insert(ops.end(), rest.begin(), rest.end()); c.check("ops=" + hz::vs(ops), o, [=](int) { history<double>(ops, szs[z]); if (ops[4] == 9) { history<float>(ops, szs[z]); history<std::complex<double>>(ops, szs[z]); history<std::complex<float>>(ops, szs[z]); } }); if (c.failed) return; if (++n % 256 == 0) c.progressMark(); }
    c.count(n); c.nontriv();
  });
  // D: the predicted number of unknowns per process (schemes with boundary)
  struct D { IV lmin, lmax, ref, procs; };
  vector<D> ds = {{{1}, {3}, {3}, {2}}, {{1}, {3}, {4}, {3}}, {{2}, {4}, {4}, {2}}, {{1, 1}, {2, 2}, {2, 2}, {2, 2}}, {{1, 1}, {3, 3}, {3, 3}, {2, 2}}, {{1, 1}, {3, 3}, {3, 3}, {3, 1}}, {{1, 2}, {3, 4}, {4, 4}, {2, 2}}, {{1, 1}, {2, 2}, {3, 3}, {1, 3}}, {{1, 1, 1}, {2, 2, 2}, {2, 2, 2}, {2, 2, 2}}, {{1, 1, 1}, {3, 3, 3}, {3, 3, 3}, {2, 1, 2}}};
  for (auto& a : ds) h.add(hz::fmt("predicted sizes %s..%s reference=%s procs=%s", hz::vs(a.lmin).c_str(), hz::vs(a.lmax).c_str(), hz::vs(a.ref).c_str(), hz::vs(a.procs).c_str()), [=](hz::Ctx& c) {
    int d = (int)a.lmin.size(); IV bnd(d, 2); vmpi::Options o; o.nranks = 1; long n = 0;
    for (auto& dec : decList(npoints(a.ref, bnd), a.procs, T ? 5000 : 600)) {
      c.check("split=" + decs(dec), o, [=](int) {
        LevelSet S(a.lmin, a.lmax, {}); auto all = S.all(); auto got = cg::getPartitionedNumDOFSGAdaptive(lv(a.lmin), lv(a.lmax), lv(a.ref), decOf(dec)); REQ((long)got.size() == prod(a.procs), "%d entries", (int)got.size()); long sum = 0;
        for (long p = 0; p < prod(a.procs); ++p) { IV x = unlin(p, a.procs), lo(d), hi(d), nn = npoints(a.ref, bnd); for (int i = 0; i < d; ++i) { lo[i] = dec[i][x[i]]; hi[i] = x[i] + 1 < a.procs[i] ? dec[i][x[i] + 1] : nn[i]; } long e = 0; for (auto& s : all) e += pointsIn(s, bnd, a.ref, lo, hi); REQ(got[p] == e, "process %s: %ld points instead of %ld", hz::vs(x).c_str(), (long)got[p], e); sum += e; }
        std::cout.setstate(std::ios::failbit); long t = cg::printSGDegreesOfFreedomAdaptive(lv(a.lmin), lv(a.lmax)); std::cout.clear(); REQ(t == sum, "%ld unknowns in total instead of %ld", t, sum);
      });
      if (c.failed) return; if (++n % 64 == 0) c.progressMark();
    }
    c.count(n); c.nontriv();
  });
  // E: the tool that writes the sizes for coupled systems: per system, and those that at least two of the systems hold
  struct E { IV lmin, lmax, procs; };
  vector<E> es = {{{1}, {4}, {1}}, {{1}, {4}, {2}}, {{2}, {5}, {4}}, {{1, 1}, {3, 3}, {1, 1}}, {{1, 1}, {3, 3}, {2, 1}}, {{1, 1}, {4, 4}, {2, 2}}, {{2, 1}, {4, 3}, {4, 1}}, {{1, 2}, {3, 5}, {1, 4}}, {{1, 1, 1}, {3, 3, 3}, {1, 2, 1}}, {{1, 1, 1}, {2, 3, 3}, {2, 1, 2}}};
  for (auto& a : es) for (int nsys = 1; nsys <= 3; ++nsys) for (int how = 0; how < (nsys == 1 ? 1 : T ? 60 : 6); ++how) h.add(hz::fmt("subspace_writer %s..%s procs=%s systems=%d split=%d", hz::vs(a.lmin).c_str(), hz::vs(a.lmax).c_str(), hz::vs(a.procs).c_str(), nsys, how), [=](hz::Ctx& c) {
    int d = (int)a.lmin.size(); IV bnd(d, 1); for (int i = 0; i < d; ++i) if (a.procs[i] > npoints(a.lmin[i], 1)) return;
    vector<IV> lev; vector<double> cf; classical(a.lmin, a.lmax, lev, cf); if ((int)lev.size() < nsys) return; int nt = (int)lev.size();
    IV sys(nt); for (int t = 0; t < nt; ++t) sys[t] = how == 0 ? t % nsys : how == 1 ? (t * nsys) / nt : how == 2 ? std::max(0, t - nt + nsys) : (t * (how + 2) / 3 + t * t * (how - 2)) % nsys;
    if ((int)std::set<int>(sys.begin(), sys.end()).size() < nsys) return;
    vmpi::Options o; o.nranks = (int)prod(a.procs); auto n = std::make_shared<long>(0);
    auto text = [](const IV& v) { std::string s; for (int x : v) s += (s.empty() ? "" : " ") + std::to_string(x); return s; };
    auto put = [](const std::string& fn, const std::string& t) { FILE* f = fopen(fn.c_str(), "w"); if (!f) abort(); fwrite(t.data(), 1, t.size(), f); fclose(f); };
    for (int k = 0; k < nsys; ++k) { std::string t = "["; for (int i = 0; i < nt; ++i) if (sys[i] == k) { t += (t.size() > 1 ? ", " : "") + hz::fmt("{\"coeff\": %g, \"level\": [", cf[i]); for (int j = 0; j < d; ++j) t += hz::fmt("%s%d", j ? ", " : "", lev[i][j]); t += "], \"group_no\": 0}"; } put(hz::fmt("sys_part%d_00001groups.json", k), t + "]"); }
    std::string ini = hz::fmt("[ct]\ndim = %d\nlmin = %s\nlmax = %s\np = %s\nctscheme = sys_part0_00001groups.json\n[manager]\nngroup = 1\nnprocs = %d\n", d, text(a.lmin).c_str(), text(a.lmax).c_str(), text(a.procs).c_str(), o.nranks);
    if (nsys > 1) ini += "[subspace]\notherctscheme = sys_part1_00001groups.json\n"; if (nsys > 2) ini += "thirdctscheme = sys_part2_00001groups.json\n[thirdLevel]\nnumSystems = 3\n"; put("sw.ini", ini);
    for (int k = 0; k < 3; ++k) unlink(hz::fmt("sys_part%d.sizes", k).c_str()); unlink("sysconjoint.sizes");
    c.check("write", o, [=](int) { std::cout.setstate(std::ios::failbit); char x[] = "subspace_writer", y[] = "sw.ini"; char* av[] = {x, y, nullptr}; REQ(subspace_writer_main(2, av) == 0, "the tool fails"); }); if (c.failed) return;
    c.check("files", o, [=](int me) {
      MPI_Comm comm = cart(MPI_COMM_WORLD, a.procs, bnd); { IV red(a.lmax); for (int& x : red) --x; cg::DistributedSparseGridUniform<double> dsg((cg::DimType)d, lv(red), lv(a.lmin), comm); auto& lvs = dsg.getAllLevelVectors();
      LevelSet S(a.lmin, a.lmax, IV(d, 1)); REQ(lvs.size() == S.all().size(), "%d subspaces instead of %d", (int)lvs.size(), (int)S.all().size());
      vector<IV> dec; for (int i = 0; i < d; ++i) dec.push_back(defaultSplit(npoints(a.lmax[i], 1), a.procs[i], false)); IV lo, hi; bounds(npoints(a.lmax, bnd), a.procs, dec, me, lo, hi);
      auto expect = [&](const std::string& fn, auto held) { REQ(cg::DistributedSparseGridIO::readSubspaceSizesFromFile(dsg, fn) == (int)lvs.size(), "%s: cannot be read", fn.c_str()); FILE* f = fopen(fn.c_str(), "rb"); REQ(f, "%s is missing", fn.c_str()); fseek(f, 0, SEEK_END); long sz = ftell(f); fclose(f); REQ(sz == (long)(lvs.size() * sizeof(cg::SubspaceSizeType)) * prod(a.procs), "%s has %ld bytes", fn.c_str(), sz);
        for (size_t i = 0; i < lvs.size(); ++i) { IV s(lvs[i].begin(), lvs[i].end()); std::set<int> have; for (int t = 0; t < nt; ++t) if (leq(s, lev[t])) have.insert(sys[t]); long e = held(have) ? pointsIn(s, bnd, a.lmax, lo, hi) : 0; REQ((long)dsg.getDataSize(i) == e, "%s: rank %d has size %ld for subspace %s instead of %ld", fn.c_str(), me, (long)dsg.getDataSize(i), hz::vs(s).c_str(), e); ++*n; } };
      for (int k = 0; k < nsys; ++k) expect(hz::fmt("sys_part%d.sizes", k), [&](const std::set<int>& x) { return x.count(k) > 0; });
      if (nsys > 1) expect("sysconjoint.sizes", [&](const std::set<int>& x) { return x.size() > 1; }); }
      MPI_Comm_free(&comm);
    });
    c.count(*n); if (!c.failed) c.nontriv();
  });
  h.rule = "registered sizes equal the geometric number of points on every rank for every assignment of grids to groups and every combination variant; subspace communicators contain exactly the holding groups; data of subspaces is disjoint; adding and extracting full grids moves exactly the values of contained subspaces; histories of allocate/copy/swap/zero agree with a map model; guard areas around all heap blocks stay intact";
  h.bounds = hz::fmt("1-3 dimensions up to level 4, up to 5 groups x 4 processes and up to 64 groups of one process, all assignments up to %d per configuration, all boundary types; histories of %d operations; the subspace size tool for 1-3 systems", T ? 2500 : 400, T ? 6 : 5);
  h.assumptions = {"every group holds at least one grid", "subspaces passed to the selective copy are allocated in both grids, as documented"};
  return h.run();
}
