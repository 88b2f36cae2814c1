// C11: recombination after faults; all fault sets of small schemes, through the optimiser and through the manager.
#include "mgr.hpp"
#include <glpk.h>
#include "combischeme/CombiMinMaxScheme.hpp"
#include "fault_tolerance/LPOptimizationInterpolation.hpp"
using namespace ref;
namespace {
typedef cg::LevelVector LV;
bool geq(const LV& a, const LV& b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] < b[i]) return false; return true; }
struct Scheme {   // fault tolerant scheme of the code under test, and the set of subspaces it stands for
  LV lmin, lmax; vector<LV> grids; vector<double> coeffs;
  vector<LV> sub; vector<double> weight0;        // subspaces with lmin <= s <= some grid, and how often the scheme counts them
  Scheme(const LV& a, const LV& b, bool adaptive) : lmin(a), lmax(b) {
    cg::CombiMinMaxScheme s((cg::DimType)a.size(), a, b); if (adaptive) s.createAdaptiveCombischeme(); else s.createClassicalCombischeme();
    s.makeFaultTolerant(); grids = s.getCombiSpaces(); for (auto c : s.getCoeffs()) coeffs.push_back(c);
    IV lo(a.begin(), a.end()), hi(b.begin(), b.end());
    for (auto& x : box(lo, hi)) { LV s1(x.begin(), x.end()); bool in = false; for (size_t k = 0; k < grids.size(); ++k) if (coeffs[k] > 0 && geq(grids[k], s1)) in = true; if (in) sub.push_back(s1); }
  }
  bool constrained(size_t k) const {             // grids the optimiser may drop: the two finest diagonals
    int top = 0, s = 0; for (auto& g : grids) { int t = 0; for (auto v : g) t += v; top = std::max(top, t); } for (auto v : grids[k]) s += v; return s >= top - 1;
  }
};
// best value of sum 4^-|s| w(s) over all 0/1 weights whose coefficients vanish on the constrained faults (and outside the given grids), for every set of constrained faults
struct Brute {
  std::map<unsigned, double> best; std::map<unsigned, bool> coarse;   // fault mask over the constrained grids
  vector<int> con;                                                     // constrained grids
  explicit Brute(const Scheme& S) {
    int n = (int)S.sub.size(); for (size_t k = 0; k < S.grids.size(); ++k) if (S.constrained(k)) con.push_back((int)k);
    std::map<LV, int> at; for (int i = 0; i < n; ++i) at[S.sub[i]] = i;
    int d = (int)S.lmin.size(); vector<int> eff; for (int i = 0; i < d; ++i) if (S.lmin[i] != S.lmax[i]) eff.push_back(i);
    vector<unsigned> pos(n, 0), neg(n, 0);
    for (int i = 0; i < n; ++i) for (int m = 0; m < (1 << eff.size()); ++m) { LV t = S.sub[i]; for (size_t j = 0; j < eff.size(); ++j) t[eff[j]] += (m >> j) & 1; auto it = at.find(t); if (it != at.end()) (__builtin_popcount(m) % 2 ? neg : pos)[i] |= 1u << it->second; }
    vector<int> conIdx, outside; for (int k : con) conIdx.push_back(at.at(S.grids[k])); for (int i = 0; i < n; ++i) if (std::find(S.grids.begin(), S.grids.end(), S.sub[i]) == S.grids.end()) outside.push_back(i);
    vector<double> obj(n); for (int i = 0; i < n; ++i) { int s = 0; for (int j : eff) s += S.sub[i][j]; obj[i] = std::pow(4.0, -s); }
    unsigned lm = 1u << at.at(S.lmin); std::unordered_map<unsigned, std::pair<double, bool>> byUse;
    for (unsigned w = 0; w < (1u << n); ++w) {
      auto coeff = [&](int i) { return __builtin_popcount(w & pos[i]) - __builtin_popcount(w & neg[i]); };
      bool ok = true; for (int i : outside) if (coeff(i)) { ok = false; break; } if (!ok) continue;
      unsigned use = 0; for (size_t k = 0; k < conIdx.size(); ++k) if (coeff(conIdx[k])) use |= 1u << k;
      double v = 0; for (unsigned q = w; q; q &= q - 1) v += obj[__builtin_ctz(q)];
      auto& e = byUse[use]; if (v > e.first) e.first = v; if (w & lm) e.second = true;
    }
    for (unsigned f = 0; f < (1u << con.size()); ++f) best[f] = 0, coarse[f] = false;
    for (auto& e : byUse) best[e.first] = e.second.first, coarse[e.first] = e.second.second;
    // best over all used sets disjoint from f: subset closure over the complement
    vector<double> b(1u << con.size(), 0); vector<char> c(1u << con.size(), 0); for (auto& e : byUse) b[e.first] = e.second.first, c[e.first] = e.second.second;
    for (size_t k = 0; k < con.size(); ++k) for (unsigned m = 0; m < b.size(); ++m) if (m >> k & 1) { b[m] = std::max(b[m], b[m ^ (1u << k)]); c[m] |= c[m ^ (1u << k)]; }
    unsigned all = (unsigned)b.size() - 1; for (unsigned f = 0; f <= all; ++f) best[f] = b[all & ~f], coarse[f] = c[all & ~f];
  }
};
struct Quiet { Quiet() { glp_term_out(GLP_OFF); std::cout.setstate(std::ios::failbit); } ~Quiet() { std::cout.clear(); } };
// new coefficients and the announced grids, judged for one set of failed grids
void judge(const Scheme& S, const Brute* B, const std::set<LV>& failed, const std::map<LV, double>& c, const std::set<LV>& again, const char* who) {
  REQ(c.size() == S.grids.size(), "%s: %d coefficients for %d grids", who, (int)c.size(), (int)S.grids.size());
  for (auto& g : S.grids) REQ(c.count(g), "%s: no coefficient for %s", who, hz::vs(g).c_str());
  for (auto& g : again) REQ(failed.count(g), "%s: %s is to be recomputed but did not fail", who, hz::vs(g).c_str());
  for (auto& g : failed) REQ(std::fabs(c.at(g)) < 1e-9 || again.count(g), "%s: failed grid %s has weight %g and is not recomputed", who, hz::vs(g).c_str(), c.at(g));
  unsigned mask = 0; double obj = 0; bool coarse = false;
  if (B) for (size_t k = 0; k < B->con.size(); ++k) if (failed.count(S.grids[B->con[k]])) mask |= 1u << k;
  for (size_t k = 0; k < S.grids.size(); ++k) if (failed.count(S.grids[k]) && S.constrained(k)) REQ(std::fabs(c.at(S.grids[k])) < 1e-9 && !again.count(S.grids[k]), "%s: failed grid %s of the finest diagonals has weight %g", who, hz::vs(S.grids[k]).c_str(), c.at(S.grids[k]));
  for (auto& s : S.sub) {
    double w = 0; int sum = 0; for (auto& e : c) if (geq(e.first, s)) w += e.second;
    REQ(std::fabs(w) < 1e-9 || std::fabs(w - 1) < 1e-9, "%s: subspace %s is counted %g times", who, hz::vs(s).c_str(), w);
    for (size_t j = 0; j < s.size(); ++j) if (S.lmin[j] != S.lmax[j]) sum += s[j];
    obj += std::round(w) * std::pow(4.0, -sum); if (s == S.lmin) coarse = std::fabs(w - 1) < 1e-9;
  }
  if (B) { REQ(coarse || !B->coarse.at(mask), "%s: the common subspaces are lost although the surviving grids contain them", who);
    REQ(std::fabs(obj - B->best.at(mask)) < 1e-12, "%s: the new combination represents %.12g (weighted subspaces) where %.12g is possible", who, obj, B->best.at(mask)); }
  else REQ(coarse, "%s: the common subspaces are lost", who);
}
void direct(const Scheme& S, const Brute* B, const vector<int>& f, bool rev) {
  std::map<LV, double> given; for (size_t k = 0; k < S.grids.size(); ++k) given[S.grids[k]] = S.coeffs[k];
  cg::LevelVectorList fl; std::set<LV> failed; for (int k : f) { fl.push_back(S.grids[k]); failed.insert(S.grids[k]); } if (rev) std::reverse(fl.begin(), fl.end());
  cg::CombigridDict dict; for (auto& g : given) dict[g.first] = g.second;
  bool any = false; for (int k : f) any |= S.constrained(k);
  Quiet q; cg::LP_OPT_INTERP lp({S.lmin, S.lmax}, (int)S.lmin.size(), GLP_MAX, dict, fl);
  REQ((lp.getNumFaults() != 0) == any, "%d faults to fix", lp.getNumFaults());
  if (!any) return;
  lp.init_opti_prob("p"); lp.set_constr_matrix(); lp.solve_opti_problem(); cg::LevelVectorList again; auto r = lp.get_results(again);
  std::map<LV, double> c(r.begin(), r.end()); judge(S, B, failed, c, std::set<LV>(again.begin(), again.end()), "optimiser");
  REQ(std::set<LV>(again.begin(), again.end()).size() == again.size(), "a grid is announced twice");
}
vector<vector<int>> subsets(int n, int maxk) {
  vector<vector<int>> o; vector<int> cur; std::function<void(int)> rec = [&](int i) { o.push_back(cur); if ((int)cur.size() == maxk) return; for (int j = i; j < n; ++j) { cur.push_back(j); rec(j + 1); cur.pop_back(); } }; rec(0); return o;
}
bool dummy(const IV& a, const IV& b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] == b[i]) return true; return false; }
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C11");
  bool T = h.thorough();
  struct Sch { IV lmin, lmax; int maxk; bool brute; int msets; };
  vector<Sch> list = {{{1, 1}, {2, 2}, 9, true, 9}, {{1, 1}, {3, 3}, 9, true, 9}, {{2, 1}, {4, 3}, 9, true, 9}, {{1, 1}, {4, 4}, 10, true, T ? 10 : 5}, {{3, 1}, {6, 4}, 10, true, 3}, {{1, 1}, {5, 5}, 14, true, T ? 5 : 3}, {{2, 2}, {7, 7}, T ? 7 : 4, false, 2},
    {{1, 1, 1}, {2, 2, 2}, 9, true, 9}, {{1, 1, 1}, {3, 3, 3}, 10, true, T ? 10 : 4}, {{1, 2, 3}, {3, 4, 5}, T ? 10 : 6, true, 2}, {{1, 1, 1}, {4, 4, 4}, T ? 20 : 4, true, T ? 4 : 2}, {{1, 1, 1, 1}, {2, 2, 2, 2}, 9, true, 5}, {{1, 1, 1, 1}, {3, 3, 3, 3}, T ? 15 : 5, true, T ? 5 : 3},
    {{1, 3, 1}, {3, 3, 3}, 9, true, 6}, {{2, 1, 1}, {2, 3, 3}, 9, true, 6}, {{1, 1, 2}, {3, 3, 2}, 9, true, 6}, {{1, 2, 1, 4}, {3, 2, 3, 4}, 9, true, 4}, {{1, 5}, {3, 5}, 9, true, 9}, {{1}, {4}, 9, true, 9}, {{1, 1, 1, 1, 1}, {2, 2, 2, 2, 2}, 9, true, 4}};
  list.push_back({{1, 1, 1}, {5, 5, 5}, T ? 3 : 2, false, 1});
  for (auto& L : list) for (int ad = 0; ad < (dummy(L.lmin, L.lmax) ? 1 : 2); ++ad) {   // the adaptive generator does not support degenerate dimensions
    // schemes are rebuilt per case; fault sets are split over cases
    for (int part = 0; part < 8; ++part) h.add(hz::fmt("optimiser %s scheme %s..%s part %d", ad ? "adaptive" : "classical", hz::vs(L.lmin).c_str(), hz::vs(L.lmax).c_str(), part), [=](hz::Ctx& c) {
      auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = 1; auto S = std::make_shared<Scheme*>(); auto B = std::make_shared<Brute*>(); auto ns = std::make_shared<int>(0);
      c.check("scheme", o, [=](int) { *S = new Scheme(lv(L.lmin), lv(L.lmax), ad); *B = L.brute && (*S)->sub.size() <= 21 ? new Brute(**S) : nullptr; *ns = (int)(*S)->grids.size(); });
      if (c.failed) return; int i = 0;
      for (auto& f : subsets(*ns, L.maxk)) { if (f.empty() || i++ % 8 != part) continue;
        c.check("failed=" + hz::vs(f), o, [=](int) { direct(**S, *B, f, false); if (f.size() > 1) direct(**S, *B, f, true); ++*n; });
        if (c.failed) return; if (i % 64 == part) c.progressMark();
      }
      delete *S; delete *B; if (*n) c.count(*n), c.nontriv();
    });
  }
  // the manager: announced lists, parameters, restoring the scheme, two faults in a row
  for (auto& L : list) for (int part = 0; part < 4; ++part) h.add(hz::fmt("manager scheme %s..%s part %d", hz::vs(L.lmin).c_str(), hz::vs(L.lmax).c_str(), part), [=](hz::Ctx& c) {
    vmpi::Options o; o.nranks = 2; auto n = std::make_shared<long>(0); int ns = 0;
    { auto x = std::make_shared<int>(0); vmpi::Options o1; o1.nranks = 1; c.check("scheme", o1, [=](int) { *x = (int)Scheme(lv(L.lmin), lv(L.lmax), !dummy(L.lmin, L.lmax)).grids.size(); }); ns = *x; }
    if (c.failed) return; auto fs = subsets(ns, L.msets); vector<vector<vector<int>>> batches; int i = 0;
    for (auto& f : fs) { if (i++ % 4 != part) continue; if (batches.empty() || batches.back().size() >= 40 || dummy(L.lmin, L.lmax))   /* no way back to the scheme there */ batches.push_back({}); batches.back().push_back(f); }
    for (auto& b : batches) {
      auto seen = std::make_shared<vector<std::pair<LV, double>>>();   // what the worker was told last
      c.check("failed sets from " + hz::vs(b[0]), o, [=](int rank) {
        cg::Stats::initialize(); cg::theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, 1, true, false);
        if (rank == 0) { Worker w; cg::SignalType sig = -1; while (sig != cg::EXIT) { sig = w.wait(); if (sig == cg::UPDATE_COMBI_PARAMETERS) { seen->clear(); auto& p = w.getCombiParameters(); for (size_t k = 0; k < p.getNumLevels(); ++k) seen->push_back({p.getLevel(k), p.getCoeff(k)}); } } }
        else {
          Scheme S(lv(L.lmin), lv(L.lmax), !dummy(L.lmin, L.lmax)); Brute* B = L.brute && S.sub.size() <= 21 ? new Brute(S) : nullptr; std::unique_ptr<Brute> own(B);
          PGs pg{std::make_shared<cg::ProcessGroupManager<double>>(0)}; cg::TaskContainer<double> tasks; vector<size_t> ids; for (size_t k = 0; k < S.grids.size(); ++k) ids.push_back(k);
          int d = (int)L.lmin.size(); vector<cg::BoundaryType> bd(d, 2);
          cg::CombiParameters params((cg::DimType)d, S.lmin, S.lmax, bd, S.grids, S.coeffs, ids, 10, 1);
          PM man(pg, tasks, params, std::unique_ptr<cg::LoadModel>(new cg::LinearLoadModel()));
          for (auto& f : b) {
            vector<size_t> fid(f.begin(), f.end()), redist, recomp; std::reverse(fid.begin(), fid.end());
            { Quiet q; man.recomputeOptimumCoefficients("p", fid, redist, recomp); }
            std::set<LV> failed, again; std::set<size_t> lists; for (int k : f) failed.insert(S.grids[k]);
            for (auto k : recomp) { REQ(k < S.grids.size(), "recompute unknown task %d", (int)k); again.insert(S.grids[k]); REQ(lists.insert(k).second, "task %d announced twice", (int)k); }
            for (auto k : redist) REQ(lists.insert(k).second, "task %d announced twice", (int)k);
            REQ(lists == std::set<size_t>(f.begin(), f.end()), "failed tasks %s: %d to recompute and %d to redistribute", hz::vs(f).c_str(), (int)recomp.size(), (int)redist.size());
            auto told = [&] { man.updateCombiParameters(); man.waitForAllGroupsToWait(); auto v = *seen; REQ(v.size() == S.grids.size(), "the workers know %d of %d grids", (int)v.size(), (int)S.grids.size()); for (size_t k = 0; k < v.size(); ++k) REQ(v[k].first == S.grids[k], "task %d is %s instead of %s", (int)k, hz::vs(v[k].first).c_str(), hz::vs(S.grids[k]).c_str()); return v; };
            std::map<LV, double> cc; auto v = told(); for (size_t k = 0; k < v.size(); ++k) { cc[v[k].first] = v[k].second; if (f.empty()) REQ(v[k].second == S.coeffs[k], "no faults, but the coefficient of %s changed to %g", hz::vs(v[k].first).c_str(), v[k].second); }
            judge(S, B, failed, cc, again, ("failed tasks " + hz::vs(f)).c_str());
            if (!dummy(L.lmin, L.lmax)) { man.restoreCombischeme(); v = told(); for (size_t k = 0; k < v.size(); ++k) REQ(v[k].second == S.coeffs[k], "after restoring the scheme the coefficient of %s is %g instead of %g", hz::vs(v[k].first).c_str(), v[k].second, S.coeffs[k]); }
            ++*n;
          }
          man.exit(); for (auto& p : pg) p->waitStatus();
        }
        cg::Stats::finalize();
      });
      if (c.failed) return; c.progressMark();
    }
    c.count(*n); c.nontriv();
  });
  h.rule = "per scheme (classical and adaptive, made fault tolerant) and set of failed grids: the optimiser's and the manager's new coefficients vanish on failed grids that are not announced for recomputation, count every subspace zero times or once, keep the common coarse subspaces and reach the best possible weighted subspace set found by enumerating all 0/1 weights; restoring gives the original scheme";
  h.bounds = hz::fmt("1-5 dimensions (with dummy dimensions), level differences 1..%d (5 in 2-d), all fault sets up to the size in the case list, both fault orders", 4);
  h.assumptions = {"lmax - lmin is equal in all non-degenerate dimensions, as the optimiser documents", "faults of component grids are given to the manager; detecting them needs fault tolerant MPI and is not covered"};
  return h.run();
}
