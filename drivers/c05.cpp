// C05: index maps of distributed full grids, exhaustively over small levels, boundaries, process grids and
// all decompositions, on the real class under the virtual MPI.
#include "common.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace ref;
namespace cg = combigrid;

struct Cfg { IV levels, bnd, procs; vector<IV> dec; int mode; };  // mode 0 explicit, 1 default forward, 2 default backward

static void checkRank(const Cfg& c, int rank, vector<int>& owner, vector<double>& gathered) {
  int dim = (int)c.levels.size(); IV n = npoints(c.levels, c.bnd);
  MPI_Comm comm = cart(MPI_COMM_WORLD, c.procs, c.bnd);
  vector<cg::IndexVector> dec(c.dec.begin(), c.dec.end());
  cg::OwningDistributedFullGrid<double> g(dim, cg::LevelVector(c.levels.begin(), c.levels.end()), comm, u8(c.bnd), c.procs, c.mode != 2, c.mode == 0 ? dec : vector<cg::IndexVector>());
  IV lo, hi; bounds(n, c.procs, c.dec, rank, lo, hi); IV ln(dim); for (int d = 0; d < dim; ++d) ln[d] = hi[d] - lo[d];
  long N = prod(n), NL = prod(ln);
  REQ(g.getNrElements() == N, "getNrElements %ld != %ld", (long)g.getNrElements(), N);
  REQ(g.getNrLocalElements() == NL, "getNrLocalElements %ld != %ld", (long)g.getNrLocalElements(), NL);
  for (int d = 0; d < dim; ++d) {
    REQ(g.getLowerBounds()[d] == lo[d] && g.getUpperBounds()[d] == hi[d], "bounds dim %d: %d..%d, expected %d..%d", d, (int)g.getLowerBounds()[d], (int)g.getUpperBounds()[d], lo[d], hi[d]);
    REQ(g.getLocalSizes()[d] == ln[d] && g.getGlobalSizes()[d] == n[d] && g.globalNumPointsInDimension(d) == n[d], "sizes dim %d", d);
    REQ(g.getFirstGlobal1dIndex(d) == lo[d] && g.getLastGlobal1dIndex(d) == hi[d] - 1, "first/last dim %d", d);
    REQ(g.getGridSpacing()[d] == 1.0 / (1 << c.levels[d]) && g.getInverseGridSpacing()[d] == (1 << c.levels[d]) && g.getInverseGridSpacingIn(d) == (1 << c.levels[d]), "grid spacing dim %d", d);
    REQ(g.getLowerBoundsCoord(d) == coord1d(lo[d], c.levels[d], c.bnd[d]), "lower bound coordinate dim %d", d);
    REQ(g.getUpperBoundsCoords()[d] == coord1d(hi[d], c.levels[d], c.bnd[d]), "upper bound coordinate dim %d", d);
    for (int k = 0; k < c.procs[d]; ++k) REQ(g.getDecomposition()[d][k] == c.dec[d][k], "decomposition dim %d part %d: %d expected %d", d, k, (int)g.getDecomposition()[d][k], c.dec[d][k]);
    REQ(g.getParallelization()[d] == c.procs[d], "parallelization");
  }
  int P = (int)prod(c.procs);
  for (int r = 0; r < P; ++r) {
    IV l2, h2; bounds(n, c.procs, c.dec, r, l2, h2); auto lb = g.getLowerBounds(r), ub = g.getUpperBounds(r); auto uc = g.getUpperBoundsCoords(r);
    for (int d = 0; d < dim; ++d) { REQ(lb[d] == l2[d] && ub[d] == h2[d], "bounds of rank %d dim %d: %d..%d expected %d..%d", r, d, (int)lb[d], (int)ub[d], l2[d], h2[d]); REQ(uc[d] == coord1d(h2[d], c.levels[d], c.bnd[d]), "upper coords of rank %d", r); }
    IV cc = cartCoords(r, c.procs); auto pc = g.getCartesianUtils().getPartitionCoordsOfRank(r);
    for (int d = 0; d < dim; ++d) REQ(pc[d] == cc[d], "partition coords of rank %d", r);
    REQ(g.getCartesianUtils().getRankFromPartitionCoords(cc) == r, "rank of partition coords");
  }
  IV my = cartCoords(rank, c.procs);
  for (int d = 0; d < dim; ++d) {
    auto pn = g.getCartesianUtils().getAllMyPoleNeighborRanks(d); IV e; for (int k = 0; k < c.procs[d]; ++k) if (k != my[d]) { IV q = my; q[d] = k; e.push_back(cartRank(q, c.procs)); }
    REQ(pn.size() == e.size() && std::equal(e.begin(), e.end(), pn.begin()), "pole neighbours in dim %d", d);
    REQ(g.getCartesianUtils().isOnLowerBoundaryInDimension(d) == (my[d] == 0) && g.getCartesianUtils().isOnUpperBoundaryInDimension(d) == (my[d] == c.procs[d] - 1), "isOn..BoundaryInDimension %d", d);
  }
  // per point
  for (long i = 0; i < N; ++i) {
    IV x = unlin(i, n), lx(dim); bool here = true; for (int d = 0; d < dim; ++d) { here = here && x[d] >= lo[d] && x[d] < hi[d]; lx[d] = x[d] - lo[d]; }
    cg::IndexVector gx(dim); g.getGlobalVectorIndex((cg::IndexType)i, gx);
    for (int d = 0; d < dim; ++d) REQ(gx[d] == x[d], "getGlobalVectorIndex(%ld)", i);
    REQ(g.getGlobalLinearIndex(cg::IndexVector(x.begin(), x.end())) == i, "getGlobalLinearIndex of vector for %ld", i);
    REQ(g.isGlobalIndexHere(gx) == here && g.isGlobalIndexHere((cg::IndexType)i) == here, "isGlobalIndexHere(%ld)", i);
    vector<double> co; g.getCoordsGlobal((cg::IndexType)i, co);
    for (int d = 0; d < dim; ++d) REQ(co[d] == coord1d(x[d], c.levels[d], c.bnd[d]), "coords of %ld", i);
    cg::IndexVector lv(dim, -7); bool got = g.getLocalVectorIndex(gx, lv);
    REQ(got == here, "getLocalVectorIndex(global %ld) says %d", i, (int)got);
    cg::IndexType ll = g.getLocalLinearIndex((cg::IndexType)i);
    if (here) {
      for (int d = 0; d < dim; ++d) REQ(lv[d] == lx[d], "local vector index of %ld", i);
      long e = lin(lx, ln);
      REQ(g.getLocalLinearIndex(lv) == e, "local linear index of local vector, point %ld", i);
      REQ(ll == e, "getLocalLinearIndex(global linear index %ld) is %ld, expected %ld", i, (long)ll, e);
      REQ(g.getGlobalLinearIndex((cg::IndexType)e) == i, "getGlobalLinearIndex(local %ld) is %ld, expected %ld", e, (long)g.getGlobalLinearIndex((cg::IndexType)e), i);
      cg::IndexVector l3(dim), g3(dim); g.getLocalVectorIndex((cg::IndexType)e, l3); g.getGlobalVectorIndex(l3, g3);
      for (int d = 0; d < dim; ++d) REQ(l3[d] == lx[d] && g3[d] == x[d], "local/global vector index of local %ld", e);
      vector<double> cl; g.getCoordsLocal((cg::IndexType)e, cl); REQ(cl == co, "getCoordsLocal(%ld)", e);
      owner[i]++;
      auto ob = g.isLocalLinearIndexOnBoundary((cg::IndexType)e), og = g.isGlobalLinearIndexOnBoundary((cg::IndexType)i);
      for (int d = 0; d < dim; ++d) { bool eb = c.bnd[d] == 2 && (x[d] == 0 || x[d] == n[d] - 1); REQ(ob[d] == eb && og[d] == eb, "on-boundary flags of %ld dim %d", i, d); }
    } else REQ(ll < 0, "getLocalLinearIndex(%ld) is %ld although not local", i, (long)ll);
    cg::LevelVector lev; cg::IndexVector ind; g.getGlobalLI((cg::IndexType)i, lev, ind);
    for (int d = 0; d < dim; ++d) {
      int el = level1d(x[d], c.levels[d], c.bnd[d]); int gi = x[d] + (c.bnd[d] == 0);
      REQ(lev[d] == el, "getGlobalLI level of %ld dim %d is %d expected %d", i, d, (int)lev[d], el);
      REQ(ind[d] == gi >> (c.levels[d] - el), "getGlobalLI index of %ld dim %d", i, d);
    }
    std::vector<int> pc; g.getPartitionCoords(gx, pc);
    for (int d = 0; d < dim; ++d) { int e = 0; for (int k = 0; k < c.procs[d]; ++k) if (c.dec[d][k] <= x[d]) e = k; REQ(pc[d] == e, "partition coords of point %ld dim %d: %d expected %d", i, d, pc[d], e); }
  }
  // per dimension
  for (int d = 0; d < dim; ++d) {
    int L = c.levels[d];
    for (int i = -1; i <= n[d]; ++i) {
      int e = -1; if (i >= 0 && i < n[d]) { int k = 0; for (int j = 0; j < c.procs[d]; ++j) if (c.dec[d][j] <= i) k = j; IV q = my; q[d] = k; e = cartRank(q, c.procs); }
      REQ(g.getNeighbor1dFromAxisIndex(d, i) == e, "neighbour of index %d in dim %d is %d expected %d", i, d, (int)g.getNeighbor1dFromAxisIndex(d, i), e);
      if (i < 0 || i >= n[d]) continue;
      int el = level1d(i, L, c.bnd[d]); REQ(g.getLevel(d, i) == el, "level of index %d dim %d: %d expected %d", i, d, (int)g.getLevel(d, i), el);
      int s = 1 << (L - el), el_ = el == 0 ? -1 : i - s, er = el == 0 ? -1 : i + s; if (el_ < 0) el_ = -1; if (c.bnd[d] == 1 ? er > n[d] : er > n[d] - 1) er = -1;
      int gl = g.getLeftPredecessor(d, i), gr = g.getRightPredecessor(d, i); if (gl < 0) gl = -1;
      REQ(gl == el_ && gr == er, "predecessors of index %d dim %d: %d,%d expected %d,%d", i, d, gl, gr, el_, er);
    }
    for (int l = 1; l <= L; ++l) {
      IV e; for (int i = lo[d]; i < hi[d]; ++i) if (subspace1d(i, L, c.bnd[d]) == l) e.push_back(i - lo[d]);
      cg::IndexVector o; g.get1dIndicesLocal(d, l, o);
      REQ(o.size() == e.size() && std::equal(e.begin(), e.end(), o.begin()), "get1dIndicesLocal(dim %d, level %d) = %s expected %s", d, l, hz::vs(o).c_str(), hz::vs(e).c_str());
      REQ(g.getNumPointsOnThisPartition(l, d) == (long)e.size(), "getNumPointsOnThisPartition(level %d, dim %d)", l, d);
    }
  }
  // subspaces partition the local points
  { vector<int> seen(NL, 0);
    for (auto& l : box(IV(dim, 1), [&] { IV m = c.levels; for (auto& x : m) x += 1; return m; }())) {
      auto p = g.getFGPointsOfSubspace(cg::LevelVector(l.begin(), l.end())); vector<long> e;
      for (long i = 0; i < NL; ++i) { IV x = unlin(i, ln); bool in = true; for (int d = 0; d < dim; ++d) in = in && subspace1d(x[d] + lo[d], c.levels[d], c.bnd[d]) == l[d]; if (in) e.push_back(i); }
      REQ(p.size() == e.size() && std::equal(e.begin(), e.end(), p.begin()), "points of subspace %s: %s expected %s", hz::vs(l).c_str(), hz::vs(p).c_str(), hz::vs(e).c_str());
      for (auto i : p) seen[i]++;
    }
    for (long i = 0; i < NL; ++i) REQ(seen[i] == 1, "local point %ld is in %d subspaces", i, seen[i]); }
  // data movement along the index maps
  auto fill = [&] { for (long i = 0; i < NL; ++i) { IV x = unlin(i, ln); for (int d = 0; d < dim; ++d) x[d] += lo[d]; g.getData()[i] = 1000 + lin(x, n); } };
  fill();
  for (int d = 0; d < dim; ++d) for (int nb = 0; nb < 2; ++nb) {
    std::vector<int> ext; std::vector<double> buf;
    if (nb == 0) buf = g.exchangeGhostLayerUpward(d, ext);
    else { MPI_Request q = MPI_REQUEST_NULL; g.exchangeGhostLayerUpward(d, ext, buf, &q); MPI_Wait(&q, MPI_STATUS_IGNORE); }
    bool has = my[d] > 0 || c.bnd[d] == 1; IV en = ln; en[d] = 1;
    if (!has) { REQ(buf.empty(), "ghost layer without lower neighbour in dim %d", d); for (int x : ext) REQ(x == 0, "ghost extents without neighbour"); continue; }
    REQ((long)buf.size() == prod(en), "ghost layer size in dim %d", d); for (int k = 0; k < dim; ++k) REQ(ext[k] == en[k], "ghost extents");
    int gl = my[d] > 0 ? lo[d] - 1 : n[d] - 1;
    for (long i = 0; i < prod(en); ++i) { IV x = unlin(i, en); for (int k = 0; k < dim; ++k) x[k] += lo[k]; x[d] = gl; REQ(buf[i] == 1000 + lin(x, n), "ghost layer dim %d entry %ld is %g, expected the value of point %ld", d, i, buf[i], lin(x, n)); }
  }
  { auto cv = g.getCornersValues(); auto ci = g.getCornersGlobalVectorIndices(); REQ(cv.size() == (size_t)(1 << dim) && ci.size() == cv.size(), "corners"); 
    for (size_t k = 0; k < cv.size(); ++k) { IV x(ci[k].begin(), ci[k].end()); for (int d = 0; d < dim; ++d) REQ(x[d] == (((k >> (dim - 1 - d)) & 1) ? n[d] - 1 : 0), "corner index"); REQ(cv[k] == 1000 + lin(x, n) , "corner %zu value %g", k, cv[k]); } }
  for (int root = 0; root < P; root += std::max(1, P - 1)) {
    cg::FullGrid<double> fg(dim, cg::LevelVector(c.levels.begin(), c.levels.end()), u8(c.bnd)); g.gatherFullGrid(fg, root);
    if (rank == root) for (long i = 0; i < N; ++i) REQ(fg.getData()[i] == 1000 + i, "gathered value %ld is %g", i, fg.getData()[i]);
  }
  for (int d = 0; d < dim; ++d) if (c.bnd[d] == 2) {
    fill(); g.writeLowerBoundaryToUpperBoundary(d);
    for (long i = 0; i < NL; ++i) { IV x = unlin(i, ln); for (int k = 0; k < dim; ++k) x[k] += lo[k]; if (x[d] == n[d] - 1) x[d] = 0; REQ(g.getData()[i] == 1000 + lin(x, n), "value %ld after writeLowerBoundaryToUpperBoundary(%d)", i, d); }
  }
  // derived decompositions of coarser grids keep every geometric point on its rank
  for (auto& cl : box(IV(dim, 1), c.levels)) {
    auto nd = cg::downsampleDecomposition(dec, cg::LevelVector(c.levels.begin(), c.levels.end()), cg::LevelVector(cl.begin(), cl.end()), u8(c.bnd));
    for (int d = 0; d < dim; ++d) {
      int cn = npoints(cl[d], c.bnd[d]), st = 1 << (c.levels[d] - cl[d]);
      for (int i = 0; i < cn; ++i) {
        int fi = (i + (c.bnd[d] == 0)) * st - (c.bnd[d] == 0); int e = 0, o = 0;
        for (int k = 0; k < c.procs[d]; ++k) { if (c.dec[d][k] <= fi) e = k; if (nd[d][k] <= i) o = k; }
        REQ(e == o, "downsampled decomposition dim %d level %d->%d: coarse point %d on part %d, the same point of the fine grid on %d", d, c.levels[d], cl[d], i, o, e);
      }
    }
  }
  MPI_Comm_free(&comm); (void)gathered;
}

int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C05");
  bool T = h.thorough();
  auto addLevels = [&](const IV& l, const IV& b, const IV& p, int maxDec, int maxProcs = 9) {
    IV n = npoints(l, b); for (size_t d = 0; d < l.size(); ++d) if (p[d] > n[d]) return;
    if (prod(p) > maxProcs) return;
    h.add("l" + hz::vs(l) + "b" + hz::vs(b) + "p" + hz::vs(p), [=](hz::Ctx& c) {
      auto decs_ = decList(n, p, maxDec); vector<Cfg> cf; bool one = false; for (int x : b) one = one || x == 1;
      for (size_t i = 0; i < decs_.size(); ++i) cf.push_back({l, b, p, decs_[i], 0});
      for (int m = one ? 2 : 1; m <= 2; ++m) { vector<IV> dd; for (size_t d = 0; d < l.size(); ++d) dd.push_back(defaultSplit(n[d], p[d], m == 1)); cf.push_back({l, b, p, dd, m}); }
      for (auto& f : cf) {
        vector<int> owner; vector<double> ga; long N = prod(n);
        vmpi::Options o; o.nranks = (int)prod(p); o.rendezvous = f.mode == 1;
        c.check(hz::fmt("mode%d", f.mode) + decs(f.dec), o, [&](int r) { if (r == 0) { owner.assign(N, 0); } MPI_Barrier(MPI_COMM_WORLD); checkRank(f, r, owner, ga); },
                [&](const vmpi::Result&) { for (long i = 0; i < N; ++i) if (owner[i] != 1) return hz::fmt("point %ld has %d owners", i, owner[i]); return std::string(); });
        c.count(N * o.nranks * 12); c.nontriv();
        if (c.failed) return;
      }
    });
  };
  for (int L = 1; L <= 5; ++L) for (int b = 0; b <= 2; ++b) for (int p = 1; p <= 6; ++p) addLevels({L}, {b}, {p}, T ? 100000 : 1400);
  for (int b = 0; b <= 2; ++b) { for (int p = 7; p <= (T ? 16 : 12); ++p) for (int L : {3, 4}) addLevels({L}, {b}, {p}, T ? 500 : 12, 16); addLevels({7}, {b}, {3}, T ? 200 : 12); addLevels({9}, {b}, {2}, T ? 40 : 4); addLevels({11}, {b}, {1}, 1); addLevels({3, 4}, {b, 2}, {3, 4}, T ? 40 : 4, 16); addLevels({4, 3}, {2, b}, {4, 4}, T ? 40 : 4, 16); addLevels({2, 6}, {b, b}, {2, 4}, T ? 40 : 4, 16); }
  for (auto& l : cube(2, 1, T ? 4 : 3)) for (auto& b : cube(2, 0, 2)) for (auto& p : cube(2, 1, 3)) addLevels(l, b, p, T ? 900 : 60);
  for (auto& l : cube(3, 1, T ? 3 : 2)) for (auto& b : cube(3, 0, 2)) for (auto& p : cube(3, 1, 2)) addLevels(l, b, p, T ? 64 : 6);
  addLevels({2, 3, 2}, {2, 2, 2}, {2, 3, 1}, 50); addLevels({3, 1, 2}, {2, 1, 0}, {3, 1, 2}, 50); addLevels({1, 2, 3}, {1, 2, 0}, {1, 2, 3}, 50);
  for (auto& b : cube(4, 0, 2)) { addLevels({2, 1, 2, 1}, b, {2, 1, 2, 1}, 3); if (T) { addLevels({1, 2, 2, 2}, b, {1, 2, 2, 2}, 6); addLevels({2, 2, 1, 3}, b, {1, 2, 1, 3}, 6); } }
  addLevels({1, 2, 1, 2, 1}, {2, 0, 1, 2, 2}, {1, 2, 1, 1, 2}, 20); addLevels({1, 1, 2, 1, 2, 1}, {2, 1, 0, 2, 2, 1}, {1, 1, 2, 1, 2, 1}, 20);
  h.rule = "for every configuration and decomposition, every index map, owner, neighbour, subspace point list, ghost layer, corner and gather of the real DistributedFullGrid on every rank equals the geometric definition computed by the driver";
  h.bounds = T ? "d=1: level<=5 (11), <=6 (16) processes, all decompositions; d=2: levels<=4, 1..3x1..3 processes; d=3: levels<=3, <=2 per dim; selected d=4..6" : "d=1: level<=5 (11), <=6 (12) processes, all decompositions (at most 1400); d=2: levels<=3, 1..3x1..3; d=3: levels<=2, <=2 per dim; selected d=3..6";
  h.assumptions = {"virtual MPI orders Cartesian ranks row-major and without reordering, as the MPI standard and the library's reorder=false demand", "dimension, level and process bounds as stated"};
  return h.run();
}
