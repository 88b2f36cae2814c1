#include <sys/stat.h>
// C06: evaluation, interpolation and norms over all decompositions and a coordinate alphabet.
#include "combi.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "mgr.hpp"
using namespace ref;
namespace {
// weight of the nodal hat function of every point, in multiples of the inner one
double hatWeight(const Grid& g, long i) { IV x = unlin(i, g.n); double w = 1; for (int d = 0; d < g.dim(); ++d) if (g.bnd[d] == 2 && (x[d] == 0 || x[d] == g.n[d] - 1)) w *= 0.5; return w; }
double norm(const Grid& g, int p) {
  double h = 1, s = 0; for (int l : g.levels) h /= 1 << l;
  if (p == 0) { for (double v : g.v) s = std::max(s, std::fabs(v)); return s; }
  for (long i = 0; i < g.size(); ++i) s += hatWeight(g, i) * std::fabs(g.v[i]) * h;
  return s;
}
vector<double> alphabet(int L, bool fine) {
  vector<double> a; int N = 1 << L;
  for (int i = 0; i <= 2 * N; ++i) a.push_back(double(i) / (2 * N));     // grid points and cell midpoints
  if (fine) for (double x : {0.3, 1. / 3, 0.7, 1e-13, 1 - 1e-13, 0.999, 0.5 + 1e-12, 0.5 - 1e-12}) a.push_back(x);
  return a;
}
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C06");
  bool T = h.thorough();
  auto grid = [&](const IV& l, const IV& b, const IV& p, long maxDec, bool fine, bool many = false) {
    IV n = npoints(l, b); for (size_t d = 0; d < l.size(); ++d) if (p[d] > n[d]) return;
    if (prod(p) > 9) return;
    h.add("grid l" + hz::vs(l) + "b" + hz::vs(b) + "p" + hz::vs(p), [=](hz::Ctx& c) {
      vector<vector<double>> xs{{}}; for (size_t d = 0; d < l.size(); ++d) { vector<vector<double>> q; for (auto& x : xs) for (double a : alphabet(l[d], fine)) { auto y = x; y.push_back(a); q.push_back(y); } xs = q; }
      if (many) for (int k = 0; k < 6000; ++k) { vector<double> x; for (size_t d = 0; d < l.size(); ++d) x.push_back(std::fmod(k * (0.6180339887 + 0.1 * d), 1.0)); xs.push_back(x); }
      vector<Grid> gs; for (int salt = 0; salt < 2; ++salt) { Grid g(l, b); for (long i = 0; i < g.size(); ++i) g.v[i] = val(i, salt) * (salt ? 1 : -1) - (salt ? 9 : 0); gs.push_back(g); }
      vector<double> e; for (auto& x : xs) e.push_back(evalAt(gs[0], x));
      double single = 0; { vmpi::Options o; o.nranks = 1; c.check("single", o, [&](int) { IV one(l.size(), 1); MPI_Comm comm = cart(MPI_COMM_WORLD, one, b); { cg::OwningDistributedFullGrid<double> g((cg::DimType)l.size(), lv(l), comm, u8(b), one, false); for (long i = 0; i < gs[0].size(); ++i) g.getData()[i] = gs[0].v[i]; single = g.getLpNorm(2); } MPI_Comm_free(&comm); }); }
      for (auto& dec : decList(n, p, maxDec)) {
        vmpi::Options o; o.nranks = (int)prod(p); o.syncColl = false;
        vector<double> sum(xs.size(), 0.0); std::map<int, double> pn;
        c.check(decs(dec), o, [&](int r) {
          MPI_Comm comm = cart(MPI_COMM_WORLD, p, b); int dim = (int)l.size();
          { cg::OwningDistributedFullGrid<double> g(dim, lv(l), comm, u8(b), p, false, decOf(dec));
          IV lo, hi; bounds(n, p, dec, r, lo, hi); IV ln(dim); for (int d = 0; d < dim; ++d) ln[d] = hi[d] - lo[d];
          for (int s = 1; s >= 0; --s) {
            for (long i = 0; i < prod(ln); ++i) { IV x = unlin(i, ln); for (int d = 0; d < dim; ++d) x[d] += lo[d]; g.getData()[i] = gs[s].v[lin(x, n)]; }
            for (int q : {0, 1}) { double a = g.getLpNorm(q), w = norm(gs[s], q); REQ(close(a, w), "norm %d is %.15g, expected %.15g", q, a, w); }
            double n2 = g.getLpNorm(2); if (s == 0) { if (!pn.count(2)) pn[2] = n2; REQ(n2 == pn[2], "norm 2 differs between ranks: %.15g and %.15g", n2, pn[2]); }
          }
          auto v = g.getInterpolatedValues(xs); REQ(v.size() == xs.size(), "%zu values for %zu coordinates", v.size(), xs.size());
          for (size_t k = 0; k < xs.size(); ++k) { REQ(close(v[k], e[k]), "value at %s is %.15g, multilinear interpolant %.15g", hz::vs(xs[k]).c_str(), v[k], e[k]); double y = 77; g.evalLocal(xs[k], y); REQ(y == g.evalLocal(xs[k]), "evalLocal variants differ"); sum[k] += y; }
          }
          MPI_Comm_free(&comm);
        }, [&](const vmpi::Result&) { for (size_t k = 0; k < xs.size(); ++k) if (!close(sum[k], e[k])) return hz::fmt("local values at %s sum to %.15g instead of %.15g", hz::vs(xs[k]).c_str(), sum[k], e[k]);
          if (!close(pn[2], single)) return hz::fmt("2-norm is %.15g, on a single process %.15g", pn[2], single);
          return std::string(); });
        c.count((long)xs.size() * 2 * o.nranks); c.nontriv(); if (c.failed) return;
      }
    });
  };
  for (int L = 0; L <= (T ? 5 : 4); ++L) for (int b = 0; b <= 2; ++b) { if (L == 0 && b == 0) continue; for (int p = 1; p <= 5; ++p) grid({L}, {b}, {p}, T ? 100000 : 600, true); }
  for (auto& l : cube(2, 1, T ? 4 : 3)) for (auto& b : cube(2, 0, 2)) for (auto& p : cube(2, 1, 3)) grid(l, b, p, T ? 400 : 24, l[0] + l[1] < 6);
  for (auto& l : cube(3, 1, 2)) for (auto& b : cube(3, 0, 2)) for (auto& p : cube(3, 1, 2)) grid(l, b, p, T ? 24 : 3, false);
  grid({1, 2, 1, 1}, {2, 1, 0, 1}, {1, 2, 1, 1}, 3, false); grid({1, 1, 2, 1}, {1, 2, 2, 0}, {1, 2, 2, 1}, 3, false);
  for (int b = 0; b <= 2; ++b) { grid({9}, {b}, {3}, 3, false, true); grid({4, 5}, {b, 2}, {2, 2}, 3, false, true); grid({1, 1, 2, 1, 1}, {2, 1, b, 2, 1}, {1, 1, 2, 1, 2}, 2, false); grid({1, 1, 1, 1, 1, 1}, {1, 1, b, 1, 1, 1}, {1, 2, 1, 1, 1, 2}, 2, false); }
  // the combination, on workers without a manager: interpolation, norms per task, evaluation on a level
  auto comb = [&](IV lmin, IV lmax, IV b, IV ba, IV p, int ng, int variant, int rdec) {
    Cfg f; f.lmin = lmin; f.lmax = lmax; f.bnd = b; f.basis = ba; f.procs = p; f.ngroup = ng; f.variant = variant; classical(lmin, lmax, f.levels, f.coeffs); if ((int)f.levels.size() < ng) return;
    IV nmin = npoints(lmin, b), nmax = npoints(lmax, b); for (size_t d = 0; d < p.size(); ++d) if (p[d] > nmin[d]) return;
    for (size_t k = 0; k < f.levels.size(); ++k) f.group.push_back((int)k % ng);
    auto dl = decList(nmax, p, rdec); 
    for (size_t i = 0; i < dl.size() + 1; ++i) {
      Cfg g = f; if (i < dl.size()) g.dec = dl[i]; else { bool pow = true; for (int x : p) pow = pow && (x & (x - 1)) == 0; if (!pow) continue; }   // default decompositions are nested for powers of two
      // every grid of the scheme needs points on every rank
      bool ok = true; if (!g.dec.empty()) for (size_t d = 0; d < p.size(); ++d) for (int k = 0; k < p[d] && ok; ++k) { int up = k + 1 < p[d] ? g.dec[d][k + 1] : nmax[d]; bool any = false; for (int x = g.dec[d][k]; x < up; ++x) { int gi = x + (b[d] == 0); if (gi % (1 << (lmax[d] - lmin[d])) == 0) any = true; } ok = any; }
      if (!ok) continue;
      h.add(hz::fmt("comb v%d g%d lmin%s lmax%s b%s ba%s p%s dec%s", variant, ng, hz::vs(lmin).c_str(), hz::vs(lmax).c_str(), hz::vs(b).c_str(), hz::vs(ba).c_str(), hz::vs(p).c_str(), decs(g.dec).c_str()), [=](hz::Ctx& c) {
        vmpi::Options o; o.nranks = g.workers(); o.syncColl = false;
        World W(g); W.run(); World W0 = W; W.combine(); int dim = g.dim();
        vector<vector<double>> xs; for (auto& q : cube(dim, 0, 4)) { vector<double> x; for (int k : q) x.push_back(k == 3 ? 1.0 : k == 4 ? 0.3 : k * 0.25); xs.push_back(x); }
        if (ng == 2 && p == IV{2, 1}) for (int k = 0; k < 3000; ++k) xs.push_back({k / 2999., std::fmod(k * 0.618, 1.0)});   // more coordinates than grid points
        vector<IV> ev; for (auto& l : box(g.lmin, g.lmax)) ev.push_back(l);
        c.check("run", o, [&](int) {
          cg::Stats::initialize(); Worker w; setupWorker(g, w, MPI_COMM_WORLD);
          auto ip = [&](const World& M, const char* when) { auto v = w.interpolateValues(xs); REQ(v.size() == xs.size(), "%zu values", v.size()); for (size_t k = 0; k < xs.size(); ++k) { double e = M.interpolate(xs[k]); REQ(close(v[k], e), "%s: combination at %s is %.15g, expected %.15g", when, hz::vs(xs[k]).c_str(), v[k], e); }
            for (int q : {0, 1}) { auto nn = w.getLpNorms(q); REQ(nn.size() == w.getTasks().size(), "number of norms"); for (size_t k = 0; k < nn.size(); ++k) { auto* t = w.getTasks()[k].get(); IV tl(t->getLevelVector().begin(), t->getLevelVector().end()); double e = norm(M.g[M.find(tl)], q); REQ(close(nn[k], e), "%s: norm %d of grid %s is %.15g, expected %.15g", when, q, hz::vs(tl).c_str(), nn[k], e); } } };
          w.runAllTasks(); ip(W0, "before combination");
          w.combineAtOnce(); ip(W, "after combination");
          if (variant == 0 || (ng == 1 && variant < 3)) if (cg::theMPISystem()->getProcessGroupNumber() == ng - 1) { mkdir("e.d", 0755); for (size_t k = 0; k < ev.size(); ++k) w.parallelEvalUniform(hz::fmt("%sout%zu.raw", k % 3 == 1 ? "./" : k % 3 == 2 ? "e.d/" : "", k), lv(ev[k])); }
          cg::Stats::finalize();
        }, [&](const vmpi::Result&) {
          if (!(variant == 0 || (ng == 1 && variant < 3))) return std::string();
          for (size_t k = 0; k < ev.size(); ++k) {
            std::string fn = hz::fmt("%sout%zu_0.raw", k % 3 == 1 ? "./" : k % 3 == 2 ? "e.d/" : "", k); FILE* f = fopen(fn.c_str(), "rb"); if (!f) return fn + " was not written";
            Grid e = W.fill(ev[k]); vector<double> d(e.size() + 1); size_t n = fread(d.data(), 8, d.size(), f); fclose(f); unlink(fn.c_str());
            if ((long)n != e.size()) return hz::fmt("evaluation on level %s wrote %zu of %ld values", hz::vs(ev[k]).c_str(), n, e.size());
            for (long i = 0; i < e.size(); ++i) if (!close(d[i], e.v[i])) return hz::fmt("evaluation on level %s: value %ld is %.15g, expected %.15g", hz::vs(ev[k]).c_str(), i, d[i], e.v[i]);
          }
          return std::string(); });
        c.count((long)xs.size() * 2); if (!c.failed) c.nontriv();
      });
    }
  };
  for (int va = 0; va < 4; ++va) for (int ng = 1; ng <= 3; ++ng) for (auto& p : vector<IV>{{1, 1}, {2, 1}, {1, 3}, {2, 2}}) for (auto& b : vector<IV>{{2, 2}, {1, 1}, {1, 2}, {0, 0}, {0, 2}}) { IV ba; for (int x : b) ba.push_back(x == 1 ? HATP : HAT); comb({1, 1}, {3, 3}, b, ba, p, ng, va, T ? 20 : 3); comb({2, 1}, {3, 2}, b, ba, p, ng, va, T ? 20 : 3); if (b[0] == 2 && b[1] == 2 && va == 0) { comb({1, 1}, {2, 3}, b, {FW, FW}, p, ng, va, 2); comb({1, 2}, {2, 3}, b, {BIO, BIO}, p, ng, va, 2); } }
  h.rule = "value at every coordinate equals the multilinear interpolant of the undistributed nodal values; maximum and 1-norm equal those of the undistributed function; written evaluation equals the nodal values of the combination";
  h.bounds = T ? "d=1 level<=5 all decompositions <=5 processes; d=2 levels<=4 <=9 processes; d=3 levels<=2 <=8 processes; coordinates: all grid points, midpoints, borders, irregular ones; combinations of 1-3 groups; selected d=4,5,6 and thousands of coordinates at once" : "d=1 level<=4 all decompositions <=5 processes; d=2 levels<=3 <=9 processes; d=3 levels<=2 <=8 processes; coordinates: all grid points, midpoints, borders, irregular ones; combinations of 1-3 groups; selected d=4,5,6 and thousands of coordinates at once";
  h.assumptions = {"norms for p>=2 are documented as approximations and only required to agree between ranks"};
  return h.run();
}
