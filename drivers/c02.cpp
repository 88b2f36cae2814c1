// C02: distributed (de)hierarchization against the sequential definition.
#include <complex>
#include "common.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
using namespace ref;
namespace cg = combigrid;

struct Cfg { IV levels, bnd, procs; vector<IV> dec; IV basis, lmin; vector<bool> dims; };

static std::unique_ptr<cg::BasisFunctionBasis> mk(int b) {
  switch (b) {
    case HAT: return std::make_unique<cg::HierarchicalHatBasisFunction>();
    case HATP: return std::make_unique<cg::HierarchicalHatPeriodicBasisFunction>();
    case FW: return std::make_unique<cg::FullWeightingBasisFunction>();
    case FWP: return std::make_unique<cg::FullWeightingPeriodicBasisFunction>();
    case BIO: return std::make_unique<cg::BiorthogonalBasisFunction>();
    default: return std::make_unique<cg::BiorthogonalPeriodicBasisFunction>();
  }
}

template <class E> struct El { static E mk(double v) { return (E)v; } static bool eq(E a, double v) { return close(a, v); } static double re(E a) { return a; } };
template <> struct El<float> { static float mk(double v) { return (float)v; } static bool eq(float a, double v) { return std::fabs(a - v) <= 2e-4 * std::max(20.0, std::fabs(v)); } static double re(float a) { return a; } };
template <> struct El<std::complex<double>> { typedef std::complex<double> C; static C mk(double v) { return {v, -0.75 * v}; } static bool eq(C a, double v) { return close(a.real(), v) && close(a.imag(), -0.75 * v); } static double re(C a) { return a.real(); } };
// the entry points of the library for one basis in all dimensions
template <class E> void alias(cg::DistributedFullGrid<E>& g, int basis, bool forward, const vector<bool>& dims, const cg::LevelVector& lm) {
  typedef cg::DistributedHierarchization H;
  switch (basis) {
    case HAT: return forward ? H::hierarchizeHierarchicalHat<E>(g, dims, lm) : H::dehierarchizeHierarchicalHat<E>(g, dims, lm);
    case HATP: return forward ? H::hierarchizeHierarchicalHatPeriodic<E>(g, dims, lm) : H::dehierarchizeHierachicalBasis<E, cg::HierarchicalHatPeriodicBasisFunction>(g, dims, lm);
    case FW: return forward ? H::hierarchizeFullWeighting<E>(g, dims, lm) : H::dehierarchizeFullWeighting<E>(g, dims, lm);
    case FWP: return forward ? H::hierarchizeFullWeightingPeriodic<E>(g, dims, lm) : H::dehierarchizeFullWeightingPeriodic<E>(g, dims, lm);
    case BIO: return forward ? H::hierarchizeBiorthogonal<E>(g, dims, lm) : H::dehierarchizeBiorthogonal<E>(g, dims, lm);
    default: return forward ? H::hierarchizeBiorthogonalPeriodic<E>(g, dims, lm) : H::dehierarchizeBiorthogonalPeriodic<E>(g, dims, lm);
  }
}
// entry: 0 bases per dimension, 1 one basis in all dimensions, 2 the defaults
template <class E> static void body(const Cfg& c, const Grid& nodal, const Grid& hier, int rank, int entry) {
  int dim = (int)c.levels.size(); typedef cg::DistributedHierarchization H;
  MPI_Comm comm = cart(MPI_COMM_WORLD, c.procs, c.bnd);
  {
    cg::OwningDistributedFullGrid<E> g(dim, cg::LevelVector(c.levels.begin(), c.levels.end()), comm, u8(c.bnd), c.procs, false, vector<cg::IndexVector>(c.dec.begin(), c.dec.end()));
    IV lo, hi; bounds(nodal.n, c.procs, c.dec, rank, lo, hi); IV ln(dim); for (int d = 0; d < dim; ++d) ln[d] = hi[d] - lo[d];
    long NL = prod(ln); REQ(g.getNrLocalElements() == NL, "local size");
    vector<long> gi(NL); for (long i = 0; i < NL; ++i) { IV x = unlin(i, ln); for (int d = 0; d < dim; ++d) x[d] += lo[d]; gi[i] = lin(x, nodal.n); g.getData()[i] = El<E>::mk(nodal.v[gi[i]]); }
    vector<std::unique_ptr<cg::BasisFunctionBasis>> own; vector<cg::BasisFunctionBasis*> bs; for (int b : c.basis) { own.push_back(mk(b)); bs.push_back(own.back().get()); }
    cg::LevelVector lm(c.lmin.begin(), c.lmin.end());
    if (entry == 2) H::hierarchize<E>(g, lm); else if (entry == 1) alias<E>(g, c.basis[0], true, c.dims, lm); else H::hierarchize<E>(g, c.dims, bs, lm);
    for (long i = 0; i < NL; ++i) REQ(El<E>::eq(g.getData()[i], hier.v[gi[i]]), "hierarchical coefficient of point %s is %.15g, sequentially %.15g", hz::vs(unlin(gi[i], nodal.n)).c_str(), El<E>::re(g.getData()[i]), hier.v[gi[i]]);
    if (entry == 2) H::dehierarchize<E>(g, lm); else if (entry == 1) alias<E>(g, c.basis[0], false, c.dims, lm); else H::dehierarchize<E>(g, c.dims, bs, lm);
    for (long i = 0; i < NL; ++i) REQ(El<E>::eq(g.getData()[i], nodal.v[gi[i]]), "dehierarchized value of point %s is %.15g, originally %.15g", hz::vs(unlin(gi[i], nodal.n)).c_str(), El<E>::re(g.getData()[i]), nodal.v[gi[i]]);
  }
  MPI_Comm_free(&comm);
}

int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C02");
  bool T = h.thorough();
  auto addCase = [&](IV l, IV b, IV p, IV ba, int maxDec, int variants, int maxProcs = 9) {
    IV n = npoints(l, b); int dim = (int)l.size();
    for (int d = 0; d < dim; ++d) { if (p[d] > n[d]) return; if (b[d] == 0 && ba[d] != HAT) return; if (b[d] == 1 && !basisPeriodic(ba[d]) && ba[d] != HAT) return; }
    if (prod(p) > maxProcs) return;
    std::string id = "l" + hz::vs(l) + "b" + hz::vs(b) + "p" + hz::vs(p) + ":"; for (int x : ba) id += std::string(basisName(x)) + ",";
    h.add(id, [=](hz::Ctx& c) {
      IV lhi(dim); for (int d = 0; d < dim; ++d) lhi[d] = b[d] == 0 ? 0 : l[d];
      auto lmins = box(IV(dim, 0), lhi); if (dim >= 3) { vector<IV> k; for (size_t i = 0; i < lmins.size(); ++i) { int mx = 0; for (int d = 0; d < dim; ++d) mx = std::max(mx, lmins[i][d]); if (mx <= 1 || i % 5 == 0) k.push_back(lmins[i]); } lmins = k; }
      vector<vector<bool>> dimsets; for (int m = 1; m < (1 << dim); ++m) { vector<bool> s(dim); for (int d = 0; d < dim; ++d) s[d] = (m >> d) & 1; dimsets.push_back(s); }
      std::reverse(dimsets.begin(), dimsets.end());
      size_t k = 0;
      for (auto& lm : lmins) for (size_t ds = 0; ds < dimsets.size(); ++ds) {
        if (ds > 0 && lm != lmins[0] && lm != lmins.back()) continue;
        Cfg f{l, b, p, {}, ba, lm, dimsets[ds]};
        Grid nod(l, b); for (long i = 0; i < nod.size(); ++i) { IV x = unlin(i, n); for (int d = 0; d < dim; ++d) if (basisPeriodic(ba[d]) && b[d] == 2 && x[d] == n[d] - 1) x[d] = 0; nod.v[i] = val(lin(x, n)); }
        Grid hi = nod; transform(hi, ba, lm, true, f.dims);
        { Grid bk = hi; transform(bk, ba, lm, false, f.dims); for (long i = 0; i < nod.size(); ++i) if (!close(bk.v[i], nod.v[i])) { c.report("model", "model", "reference model does not invert"); return; } }
        bool same = true; for (int x : ba) same = same && x == ba[0]; bool allDims = ds == 0;
        auto decs_ = decList(n, p, maxDec, (long)k++);
        for (size_t i = 0; i < decs_.size(); ++i) {
          f.dec = decs_[i];
          int v = (int)((i + k) % variants);
          vmpi::Options o; o.nranks = (int)prod(p); o.rendezvous = v & 1; o.lateDelivery = v & 1; o.ompThreads = v & 2 ? 2 : 1; o.ompOrder = v & 2 ? 1 : 0; o.reverseSched = v & 2;
          int en = same && (v & 1) ? (allDims && ba[0] == HAT && (i + k) % 8 < 4 ? 2 : 1) : 0, el = (int)((i + k) / 3 % 4);
          c.check("lmin" + hz::vs(lm) + "dims" + hz::vs(f.dims) + "dec" + decs(f.dec) + hz::fmt("v%d e%d %s", v, en, el == 1 ? "complex" : el == 2 ? "float" : "double"), o, [&](int r) { if (el == 1) body<std::complex<double>>(f, nod, hi, r, en); else if (el == 2) body<float>(f, nod, hi, r, en); else body<double>(f, nod, hi, r, en); });
          c.count(2 * nod.size()); c.nontriv(); c.progressMark();
          if (c.failed) return;
        }
      }
    });
  };
  // 1-D: all bases, boundaries, lmin, decompositions
  for (int L = 1; L <= (T ? 5 : 4); ++L) for (int b = 0; b <= 2; ++b) for (int ba = 0; ba < 6; ++ba) for (int p = 1; p <= (T ? 7 : 5); ++p) addCase({L}, {b}, {p}, {ba}, T ? 6000 : (L <= 3 ? 1000 : 300), 4);
  // 2-D: all pairs of bases and boundaries
  for (auto& l : cube(2, 1, T ? 3 : 3)) for (auto& b : cube(2, 0, 2)) for (auto& ba : cube(2, 0, 5)) for (auto& p : cube(2, 1, 3)) { if (!T && prod(p) > 6) continue; if (!T && (l[0] + l[1] == 2)) continue; addCase(l, b, p, ba, T ? 24 : 2, 4); }
  // 3-D
  for (auto& l : cube(3, 1, 2)) for (auto& b : cube(3, 0, 2)) for (auto& p : cube(3, 1, 2)) for (int s = 0; s < (T ? 6 : 2); ++s) { IV ba(3); for (int d = 0; d < 3; ++d) ba[d] = b[d] == 0 ? HAT : b[d] == 1 ? ((s + d) % 3) * 2 + 1 : (s * 2 + d) % 6; addCase(l, b, p, ba, T ? 6 : 1, 4); }
  // anisotropic and higher-dimensional representatives
  addCase({5, 2}, {2, 2}, {4, 1}, {FW, BIO}, 60, 4); addCase({2, 5}, {1, 2}, {1, 5}, {FWP, HAT}, 60, 4); addCase({4, 4}, {1, 1}, {3, 3}, {BIOP, FWP}, 60, 4); addCase({6}, {2}, {6}, {BIO}, 200, 4); addCase({6}, {1}, {7}, {HATP}, 200, 4);
  // many processes, high levels
  for (int ba = 0; ba < 6; ++ba) for (int b = 0; b <= 2; ++b) { addCase({4}, {b}, {12}, {ba}, T ? 300 : 20, 4, 16); addCase({5}, {b}, {16}, {ba}, T ? 100 : 5, 4, 16); addCase({8}, {b}, {3}, {ba}, T ? 60 : 6, 4); addCase({10}, {b}, {2}, {ba}, T ? 20 : 3, 4); addCase({3, 3}, {b, 2}, {4, 4}, {ba, HAT}, T ? 20 : 2, 4, 16); addCase({2, 7}, {2, b}, {2, 2}, {BIO, ba}, T ? 20 : 2, 4); }
  addCase({2, 1, 2, 2}, {2, 1, 2, 0}, {2, 1, 1, 2}, {HAT, HATP, BIO, HAT}, 9, 4); addCase({1, 2, 1, 2, 1}, {1, 1, 2, 2, 0}, {1, 2, 2, 1, 1}, {FWP, BIOP, FW, HAT, HAT}, 9, 4);
  addCase({1, 1, 2, 1, 1, 1}, {2, 1, 2, 0, 1, 1}, {1, 1, 2, 1, 1, 2}, {HAT, HATP, BIO, HAT, FWP, BIOP}, 2, 4);
  h.rule = "every hierarchical coefficient computed by the distributed transform on every rank equals the sequential definition, and dehierarchizing restores the nodal values";
  h.bounds = T ? "d=1: level<=5(6), <=7 processes, all lmin, all (<=6000) decompositions; d=2: levels<=3, all basis and boundary pairs, 1..3x1..3 processes; d=3: levels<=2; selected d=4,5,6" : "d=1: level<=4(6), <=5 processes, all lmin; d=2: levels<=3, all basis and boundary pairs; d=3: levels<=2; selected d=4,5,6";
  h.assumptions = {"boundary-free dimensions use the hat basis and minimum level 0, one-sided ones a periodic or hat basis, as the library documents", "data of periodic bases on two-sided boundaries is periodic"};
  return h.run();
}
