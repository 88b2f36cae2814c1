// C01: the combination step of the real workers against a sequential combination.
#include "combi.hpp"
#include "utils/Stats.hpp"
using namespace ref;

static void body(const Cfg& c, const vector<World>& after, int rank, vector<long>& compared, bool minmax) {
  cg::Stats::initialize();
  {
    Worker w;
    setupWorker(c, w, MPI_COMM_WORLD);
    for (size_t s = 0; s < after.size(); ++s) {
      if (s > 0) w.runAllTasks();
      w.combineAtOnce(minmax && c.variant != 3 ? false : minmax);
      compared[rank] += compareTasks(after[s], w, hz::fmt("after combination %zu", s + 1).c_str());
    }
    w.exit();
  }
  cg::Stats::finalize();
}

static std::string idOf(const Cfg& f) { std::string s = "min" + hz::vs(f.lmin) + "max" + hz::vs(f.lmax) + "b" + hz::vs(f.bnd) + "p" + hz::vs(f.procs) + hz::fmt("g%d", f.ngroup) + (f.nfields > 1 ? hz::fmt("fields%d", f.nfields) : "") + (f.hdims.empty() ? "" : "dims" + hz::vs(f.hdims)) + (f.chunk > 64 || f.chunk == 0 ? hz::fmt("chunk%u", f.chunk) : "") + (f.fwd ? "fwd" : "") + (f.jump ? "jump" : "") + (f.reduceLmax.empty() ? "" : "red" + hz::vs(f.reduceLmax)) + ":"; for (int x : f.basis) s += std::string(basisName(x)) + ","; return s; }

int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C01");
  bool T = h.thorough();
  // every grid keeps at least one point per process
  auto usable = [](const Cfg& f, const vector<IV>& dec) {
    IV nmax = npoints(f.lmax, f.bnd);
    for (auto& l : f.levels) for (int d = 0; d < f.dim(); ++d) {
      int st = 1 << (f.lmax[d] - l[d]), off = f.bnd[d] == 0 ? 1 : 0;
      for (size_t k = 0; k < dec[d].size(); ++k) { int lo = dec[d][k], hi = k + 1 < dec[d].size() ? dec[d][k + 1] : nmax[d]; bool any = false; for (int i = lo; i < hi; ++i) if ((i + off) % st == 0) any = true; if (!any) return false; }
    }
    return true;
  };
  struct Opt { int maxAssign, maxDec, variants, steps; };   // maxDec 0: the default decomposition
  auto addCase = [&](Cfg f, Opt op) {
    if (f.workers() > 12 && f.nprocs() > 1) return;
    for (int d = 0; d < f.dim(); ++d) { if (f.bnd[d] == 0 && f.basis[d] != HAT) return; if (f.bnd[d] == 1 && !basisPeriodic(f.basis[d]) && f.basis[d] != HAT) return; if (f.procs[d] > npoints(f.lmin[d], f.bnd[d])) return; }
    if (f.levels.empty()) classical(f.lmin, f.lmax, f.levels, f.coeffs);
    h.add(idOf(f) + hz::fmt("n%zu", f.levels.size()), [=](hz::Ctx& c) {
      size_t G = f.levels.size();
      // decompositions at lmax
      IV nmax = npoints(f.lmax, f.bnd); vector<vector<IV>> decs_;
      for (auto& d : decList(nmax, f.procs, op.maxDec * 30)) if (usable(f, d)) decs_.push_back(d);
      if (op.maxDec == 0) { vector<IV> dd; for (int d = 0; d < f.dim(); ++d) dd.push_back(defaultSplit(nmax[d], f.procs[d], f.fwd)); if (usable(f, dd)) decs_.push_back({}); }
      if (decs_.empty()) return;
      if (op.maxDec && (int)decs_.size() > op.maxDec) { vector<vector<IV>> k; for (int i = 0; i < op.maxDec; ++i) k.push_back(decs_[i * decs_.size() / op.maxDec]); decs_ = k; }
      // sequential model, once per case
      Cfg base = f; World W(base); vector<World> after; for (int s = 0; s < op.steps; ++s) { if (s) W.run(); W.combine(); after.push_back(W); }
      // assignments of grids to groups: all of them if few, else evenly spaced ones
      double total = std::pow((double)f.ngroup, (double)G); double st = std::max(1.0, std::floor(total / op.maxAssign)); long cnt = 0;
      if ((int)G < f.ngroup) return;
      for (double a0 = 0; a0 < total && cnt < op.maxAssign + 1; a0 += st) {
        Cfg g = f; g.group.resize(G); // next assignment that gives every group a grid
        bool sur = total > 1e9;
        if (sur) for (size_t k = 0; k < G; ++k) g.group[k] = cnt & 1 ? (int)(k * f.ngroup / G) : (int)((k + cnt / 2) % f.ngroup); // round robin and blocks
        else for (double a = a0; a < std::min(total, a0 + st) && !sur; ++a) { double r = a; std::set<int> used; for (size_t k = 0; k < G; ++k) { g.group[k] = (int)std::fmod(r, f.ngroup); used.insert(g.group[k]); r = std::floor(r / f.ngroup); } sur = (int)used.size() == f.ngroup; }
        if (!sur) continue;
        ++cnt;
        g.dec = decs_[cnt % decs_.size()];
        for (int v = 0; v < (f.nfields > 1 ? 3 : 4); ++v) {   // the chunked variant takes one field only
          g.variant = v; int m = (int)((cnt + v) % 4); g.chunk = f.chunk != 64 ? f.chunk : m == 1 ? 1 : 64;
          vmpi::Options o; o.nranks = g.workers(); o.rendezvous = m & 1; o.lateDelivery = m & 1; o.syncColl = !(m & 2); o.reverseSched = m & 2; o.reduceOrder = m & 1; o.ompThreads = m == 3 ? 2 : 1;
          vector<long> cmp(o.nranks, 0);
          c.check(hz::fmt("variant%d", v) + "groups" + hz::vs(g.group) + "dec" + decs(g.dec) + hz::fmt("m%d", m), o, [&](int rk) { body(g, after, rk, cmp, m == 2); },
                  [&](const vmpi::Result&) -> std::string { long s = 0, e = 0; for (long& x : cmp) { s += x; x = 0; } for (auto& x : after[0].g) e += x.size(); e *= f.nfields; return s == e * op.steps ? "" : hz::fmt("%ld grid points present on the workers, expected %ld", s, e * op.steps); });
          if (c.failed) return;
          c.count(op.steps * (long)G); c.nontriv(); c.progressMark();
        }
      }
    });
  };
  auto cfg = [](IV lmin, IV lmax, IV b, IV ba, IV p, int ng) { Cfg f; f.lmin = lmin; f.lmax = lmax; f.bnd = b; f.basis = ba; f.procs = p; f.ngroup = ng; return f; };
  // 2-D: schemes, boundaries, group counts, processes; hat-type bases
  for (auto& mm : vector<std::pair<IV, IV>>{{{1, 1}, {2, 2}}, {{1, 1}, {3, 3}}, {{2, 1}, {4, 3}}, {{1, 2}, {2, 4}}, {{2, 2}, {3, 4}}, {{2, 2}, {2, 2}}})
    for (auto& b : cube(2, 0, 2)) for (auto& p : cube(2, 1, 3)) for (int ng = 1; ng <= 4; ++ng) {
      if (prod(p) > 6) continue;
      addCase(cfg(mm.first, mm.second, b, {b[0] == 1 ? HATP : HAT, b[1] == 1 ? HATP : HAT}, p, ng), T ? Opt{600, 12, 4, 3} : Opt{24, 3, 4, 2});
    }
  // bases
  for (auto& b : cube(2, 1, 2)) for (auto& ba : cube(2, 0, 5)) for (auto& p : vector<IV>{{1, 1}, {2, 1}, {2, 2}, {1, 3}}) for (int ng = 1; ng <= 3; ++ng)
    addCase(cfg({1, 1}, {3, 3}, b, ba, p, ng), T ? Opt{100, 8, 4, 3} : Opt{5, 2, 4, 2});
  // 1-D, 3-D, 4-D
  for (int L = 2; L <= 4; ++L) for (int b = 0; b <= 2; ++b) for (int p = 1; p <= 3; ++p) for (int ng = 1; ng <= 3; ++ng) addCase(cfg({1}, {L}, {b}, {b == 1 ? HATP : HAT}, {p}, ng), Opt{20, 4, 4, 2});
  for (auto& b : cube(3, 0, 2)) for (auto& p : cube(3, 1, 2)) for (int ng = 1; ng <= 3; ++ng) { IV ba(3); for (int d = 0; d < 3; ++d) ba[d] = b[d] == 1 ? HATP : HAT; addCase(cfg({1, 1, 1}, {2, 2, 2}, b, ba, p, ng), T ? Opt{60, 4, 4, 3} : Opt{4, 2, 4, 2}); if (ng == 2 || T) addCase(cfg({1, 2, 1}, {2, 3, 3}, b, ba, p, ng), T ? Opt{40, 4, 4, 2} : Opt{2, 1, 4, 2}); }
  addCase(cfg({1, 1, 1, 1}, {2, 2, 2, 2}, {2, 1, 0, 2}, {HAT, HATP, HAT, HAT}, {1, 2, 1, 2}, 2), Opt{6, 2, 4, 2});
  addCase(cfg({1, 1, 1, 1}, {3, 3, 3, 3}, {1, 1, 2, 2}, {BIOP, FWP, BIO, FW}, {2, 1, 1, 1}, 3), Opt{3, 2, 4, 1});
  // reduced maximum level
  for (auto& red : vector<IV>{{1, 1}, {0, 1}, {2, 2}}) for (auto& b : vector<IV>{{2, 2}, {1, 2}, {0, 1}}) for (int ng = 1; ng <= 3; ++ng) { Cfg f = cfg({1, 1}, {3, 3}, b, {b[0] == 1 ? HATP : HAT, b[1] == 1 ? HATP : HAT}, {2, 1}, ng); f.reduceLmax = red; addCase(f, T ? Opt{200, 6, 4, 3} : Opt{12, 2, 4, 2}); }
  // hand-made schemes: arbitrary coefficients, grids missing from the sparse grid
  for (int ng = 1; ng <= 3; ++ng) { Cfg f = cfg({1, 1}, {3, 3}, {2, 1}, {HAT, HATP}, {2, 1}, ng); f.levels = {{3, 1}, {2, 2}, {1, 1}, {3, 3}}; f.coeffs = {1, 0.5, -2, 0.25}; addCase(f, T ? Opt{100, 6, 4, 3} : Opt{16, 2, 4, 2}); }
  // chunked: sparse grids larger than one chunk
  for (int ng = 1; ng <= (T ? 3 : 2); ++ng) for (auto& p : vector<IV>{{1, 1}, {1, 2}}) { Cfg f = cfg({8, 8}, {9, 9}, {1, 1}, {HATP, HATP}, p, ng); f.chunk = 1; addCase(f, Opt{3, 2, 4, 1}); }
  // any chunk size: no limit, and limits whose number of elements exceeds what fits an int
  for (uint32_t ch : {1024u, 8192u, 16383u, 16384u, 16385u, 32768u, 65536u, 1u << 24, 2147483647u, 2147483648u, 4294967295u}) for (int ng = 1; ng <= 3; ++ng) { Cfg f = cfg({1, 1}, {3, 3}, {2, 1}, {HAT, HATP}, {2, 1}, ng); f.chunk = ch; addCase(f, Opt{2, 2, 4, 2}); }
  // chunked subspace reduction: what several groups share exceeds one chunk
  for (int ng = 2; ng <= (T ? 3 : 2); ++ng) for (int b = 0; b <= 2; ++b) for (auto& lv : vector<vector<IV>>{{{17}, {18}, {16}}, {{18}, {19}, {17}}}) { Cfg f = cfg({16}, {19}, {b}, {b == 1 ? HATP : HAT}, {1}, ng); f.chunk = 1; f.levels = lv; f.coeffs = {1, 0.5, -0.5}; addCase(f, Opt{T ? 8 : 2, 1, 4, 1}); }
  // several grids (fields) per task
  for (int nf : {2, 3}) for (auto& b : vector<IV>{{2, 2}, {1, 2}, {0, 1}}) for (auto& p : vector<IV>{{1, 1}, {2, 1}, {2, 2}}) for (int ng = 1; ng <= 3; ++ng) for (auto& red : vector<IV>{{}, {1, 1}}) { Cfg f = cfg({1, 1}, {3, 3}, b, {b[0] == 1 ? HATP : HAT, b[1] == 1 ? HATP : HAT}, p, ng); f.nfields = nf; f.reduceLmax = red; addCase(f, T ? Opt{100, 6, 4, 3} : Opt{6, 2, 4, 2}); }
  for (auto& ba : vector<IV>{{BIO, FW}, {FWP, BIOP}}) { Cfg f = cfg({1, 1}, {3, 3}, {2, 2}, ba, {1, 2}, 2); f.nfields = 2; addCase(f, T ? Opt{100, 6, 4, 3} : Opt{6, 2, 4, 2}); }
  // some dimensions not hierarchized (combined as they are)
  for (auto& b : cube(2, 0, 2)) for (auto& hd : vector<vector<bool>>{{true, false}, {false, true}, {false, false}}) for (auto& p : vector<IV>{{1, 1}, {2, 1}, {1, 2}}) for (int ng = 1; ng <= 3; ++ng) { Cfg f = cfg({1, 1}, {3, 3}, b, {b[0] == 1 ? HATP : HAT, b[1] == 1 ? HATP : HAT}, p, ng); f.hdims = hd; addCase(f, T ? Opt{100, 6, 4, 3} : Opt{4, 2, 4, 2}); }
  { Cfg f = cfg({2, 1, 1}, {2, 3, 3}, {2, 2, 1}, {HAT, FW, BIOP}, {1, 2, 1}, 2); f.hdims = {false, true, true}; addCase(f, Opt{6, 2, 4, 2}); }
  // default decompositions (documented for powers of two only), middle point down or up
  for (auto& b : cube(2, 0, 2)) for (auto& p : vector<IV>{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {4, 1}, {4, 2}}) for (bool fw : {false, true}) for (int ng = 1; ng <= 2; ++ng) { Cfg f = cfg({2, 2}, {4, 3}, b, {b[0] == 1 ? HATP : HAT, b[1] == 1 ? HATP : HAT}, p, ng); if (fw && (b[0] == 1 || b[1] == 1)) continue; f.fwd = fw; addCase(f, Opt{T ? 20 : 3, 0, 4, 2}); }
  // rounding residues of huge values must not survive into the next combination
  for (auto& b : vector<IV>{{2, 2}, {1, 0}}) for (auto& p : vector<IV>{{1, 1}, {2, 1}}) for (int ng = 1; ng <= 3; ++ng) for (int nf : {1, 2}) { Cfg f = cfg({1, 1}, {4, 4}, b, {b[0] == 1 ? HATP : HAT, b[1] == 1 ? HATP : HAT}, p, ng); f.jump = true; f.nfields = nf; addCase(f, T ? Opt{60, 4, 4, 3} : Opt{4, 2, 4, 3}); }
  // five and six dimensions; many combination steps; many grids per group
  for (int d : {5, 6}) for (int ng : {1, 2}) { IV b(d), ba(d), p(d, 1); for (int k = 0; k < d; ++k) { b[k] = (k + 2) % 3; ba[k] = b[k] == 1 ? HATP : HAT; } p[3] = 2; addCase(cfg(IV(d, 1), IV(d, 2), b, ba, p, ng), Opt{2, 1, 4, 2}); }
  addCase(cfg({1, 1}, {3, 3}, {2, 1}, {BIO, HATP}, {2, 1}, 2), Opt{2, 1, 4, 12});
  addCase(cfg({1, 1}, {12, 12}, {1, 1}, {HATP, HATP}, {1, 1}, 2), Opt{1, 1, 4, 1});
  // many groups
  for (int ng : T ? IV{9, 12, 31, 32, 33, 34, 48, 64} : IV{12, 32, 33, 40}) for (int b = 0; b <= 2; ++b) addCase(cfg({1, 1, 1}, {7, 7, 7}, {b, b, b}, IV(3, b == 1 ? HATP : HAT), {1, 1, 1}, ng), Opt{T ? 4 : 1, 1, 4, 1});
  h.rule = "all values of all component grids after each combination equal the sequential combination; every grid point is present exactly once";
  h.bounds = T ? "d<=4 (selected 5, 6), levels<=4 (selected 12, chunk cases up to 19, chunk sizes up to 2^32-1 MiB), <=4 groups, <=12 processes, up to 600 assignments and 12 decompositions per configuration, 3 steps" : "d<=4 (selected 5, 6), levels<=4 (selected 12, chunk cases up to 19, chunk sizes up to 2^32-1 MiB), <=4 groups, <=12 processes, up to 24 assignments and 3 decompositions per configuration, 2 steps";
  h.assumptions = {"every process group holds at least one grid (the library warns otherwise)", "every process owns at least one point of every component grid", "bases are used with the boundary types they document"};
  return h.run();
}
