// C10: combination schemes; all (lmin, lmax) in a box of levels, all splittings and assignments.
#include <sys/resource.h>
#include "common.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
#include "utils/LevelSetUtils.hpp"
using namespace ref;
namespace cg = combigrid;
namespace {
typedef cg::LevelVector LV;
typedef std::set<LV> Set;
bool le(const LV& a, const LV& b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false; return true; }
std::string S(const LV& l) { return hz::vs(l); }
void down(const LV& l, Set& s) { LV x(l.size(), 1); for (;;) { s.insert(x); size_t d = 0; while (d < l.size() && x[d] == l[d]) x[d++] = 1; if (d == l.size()) return; ++x[d]; } }
Set downs(const vector<LV>& ls) { Set s; for (auto& l : ls) down(l, s); return s; }
bool closed(const Set& s) { for (auto l : s) for (auto& x : l) if (x > 1) { --x; bool in = s.count(l); ++x; if (!in) return false; } return true; }
// validity of a combination; partial: grids may be missing (not used here)
long valid(const vector<LV>& ls, const vector<double>& cs, const LV& lmin, const LV& lmax, const char* what) {
  REQ(!ls.empty(), "%s: no grids", what); REQ(ls.size() == cs.size(), "%s: %d grids but %d coefficients", what, (int)ls.size(), (int)cs.size());
  Set u(ls.begin(), ls.end()); REQ(u.size() == ls.size(), "%s: a level occurs twice", what);
  double sum = 0; for (double c : cs) sum += c; REQ(std::abs(sum - 1) < 1e-9, "%s: the coefficients sum to %g", what, sum);
  for (auto& l : ls) { REQ(l.size() == lmin.size(), "%s: dimension of a level", what); REQ(le(lmin, l) && le(l, lmax), "%s: level %s outside [%s, %s]", what, S(l).c_str(), S(lmin).c_str(), S(lmax).c_str()); }
  Set all = downs(ls); long n = 0;
  for (auto& s : all) { double c = 0; for (size_t i = 0; i < ls.size(); ++i) if (le(s, ls[i])) c += cs[i]; ++n; REQ(std::abs(c - 1) < 1e-9, "%s: subspace %s is counted %g times", what, S(s).c_str(), c); }
  return n;
}
struct Scheme { vector<LV> l; vector<double> c; };
long distribute(const cg::CombiMinMaxScheme& s, int dim, int maxg) {
  auto& ls = s.getCombiSpaces(); auto& cs = s.getCoeffs(); long n = 0;
  auto part = [&](int ng, int kind, int b) {
    vector<int> seen(ls.size(), 0);
    for (int g = 0; g < ng; ++g) {
      vector<LV> l; vector<double> c; vector<size_t> t; size_t tot;
      if (kind == 0) tot = cg::getRoundRobinLevels(s, g, ng, l, c, t); else tot = cg::getLoadBalancedLevels(s, g, ng, vector<cg::BoundaryType>(dim, (cg::BoundaryType)b), l, c, t);
      REQ(tot == ls.size(), "total number of tasks %d of %d", (int)tot, (int)ls.size()); REQ(l.size() == c.size() && l.size() == t.size(), "sizes differ");
      REQ(!l.empty(), "group %d of %d gets no grid of %d", g, ng, (int)ls.size());
      for (size_t i = 0; i < t.size(); ++i) { REQ(t[i] < ls.size(), "task number out of range"); REQ(!seen[t[i]], "grid %d assigned twice (%d groups, kind %d)", (int)t[i], ng, kind); seen[t[i]] = 1; REQ(l[i] == ls[t[i]] && c[i] == cs[t[i]], "grid %d changed when it was assigned", (int)t[i]); ++n; }
    }
    for (size_t i = 0; i < ls.size(); ++i) REQ(seen[i], "grid %d not assigned to any of %d groups (kind %d)", (int)i, ng, kind);
  };
  for (int ng = 1; ng <= std::min<int>(maxg, ls.size()); ++ng) { part(ng, 0, 0); for (int b = 0; b <= 2; ++b) part(ng, 1, b); }
  return n;
}
long split(const vector<LV>& ls, const vector<double>& cs, const vector<double>& fr) {
  size_t pos = 0; unsigned n = fr.size();
  for (unsigned k = 0; k < n; ++k) {
    vector<LV> l; vector<double> c; cg::CombiThirdLevelScheme::createThirdLevelScheme(ls, cs, k, n, l, c, fr);
    REQ(l.size() == c.size(), "split: sizes differ"); REQ(pos + l.size() <= ls.size(), "split into %d: too many grids", n);
    double want = fr[k] * ls.size(); REQ(std::abs(l.size() - want) <= 1.0 + 1e-9, "split: system %d gets %d grids for a fraction of %g of %d", k, (int)l.size(), fr[k], (int)ls.size());
    for (size_t i = 0; i < l.size(); ++i) { bool f = false; for (size_t j = 0; j < ls.size(); ++j) if (ls[j] == l[i]) { f = c[i] == cs[j]; break; } REQ(f, "split: grid %s or its coefficient is not that of the scheme", S(l[i]).c_str()); }
    pos += l.size();
    for (unsigned q = 0; q < k; ++q) { vector<LV> l2; vector<double> c2; cg::CombiThirdLevelScheme::createThirdLevelScheme(ls, cs, q, n, l2, c2, fr); Set a(l2.begin(), l2.end()); for (auto& x : l) REQ(!a.count(x), "split: grid %s given to two systems", S(x).c_str()); }
  }
  REQ(pos == ls.size(), "split: %d of %d grids given to the systems", (int)pos, (int)ls.size());
  return pos;
}
long one(const LV& lmin, const LV& lmax, int maxg, bool ft, bool deep) {
  int dim = lmin.size(); long n = 0;
  bool even = true; for (int d = 1; d < dim; ++d) if (lmax[d] - lmin[d] != lmax[0] - lmin[0]) even = false;
  bool dummy = false; for (int d = 0; d < dim; ++d) dummy |= lmax[d] == lmin[d];
  auto name = S(lmin) + "-" + S(lmax);
  for (int kind = 0; kind < 2; ++kind) {
    std::string w = std::string(kind ? "adaptive " : "classical ") + name;
    cg::CombiMinMaxScheme s((cg::DimType)dim, lmin, lmax);
    try { if (kind) s.createAdaptiveCombischeme(); else s.createClassicalCombischeme(); } catch (std::runtime_error& e) {
      REQ(kind && !even, "%s: %s", w.c_str(), e.what()); continue;  // the adaptive generator refuses some uneven ranges
    }
    n += valid(s.getCombiSpaces(), s.getCoeffs(), lmin, lmax, w.c_str());
    Set all = downs(s.getCombiSpaces());
    if (even || !kind) for (int d = 0; d < dim; ++d) { bool hit = false; for (auto& l : s.getCombiSpaces()) hit |= l[d] == lmax[d]; REQ(hit, "%s: maximum level of dimension %d is not reached", w.c_str(), d); }
    { auto& ds = s.getDownSet(); Set x(ds.begin(), ds.end()); REQ(x.size() == ds.size(), "%s: a subspace is twice in the level set", w.c_str()); REQ(closed(x), "%s: level set is not down-closed", w.c_str());
      for (auto& a : all) REQ(x.count(a), "%s: level set lacks subspace %s", w.c_str(), S(a).c_str());
      if (even || !kind) REQ(x == all, "%s: level set has %d subspaces, the grids have %d", w.c_str(), (int)x.size(), (int)all.size());
      for (auto& a : x) REQ(le(a, lmax), "%s: level set contains %s", w.c_str(), S(a).c_str()); }
    s.createDownSet(); { auto& ds = s.getDownSet(); Set x(ds.begin(), ds.end()); REQ(x.size() == ds.size() && x == all, "%s: regenerated level set has %d subspaces, the grids have %d", w.c_str(), (int)x.size(), (int)all.size()); }
    // the set of subspaces the library stores for this range holds every subspace of the scheme
    { vector<LV> t; cg::createTruncatedHierarchicalLevels(lmax, lmin, t); Set x(t.begin(), t.end()); REQ(x.size() == t.size(), "%s: a sparse grid subspace is listed twice", w.c_str()); REQ(closed(x), "%s: sparse grid subspaces are not down-closed", w.c_str()); for (auto& a : all) REQ(x.count(a), "%s: subspace %s is not part of the sparse grid", w.c_str(), S(a).c_str()); for (auto& a : x) REQ(le(a, lmax), "%s: sparse grid contains %s", w.c_str(), S(a).c_str()); if (!kind && !dummy) REQ(x == all, "%s: sparse grid has %d subspaces, the grids %d", w.c_str(), (int)x.size(), (int)all.size()); }
    n += distribute(s, dim, maxg);
    if (deep) for (auto& fr : vector<vector<double>>{{1}, {0.5, 0.5}, {0.1, 0.9}, {0, 1}, {1, 0}, {0.3, 0.3, 0.4}, {1. / 3, 1. / 3, 1. / 3}, {0.25, 0.25, 0.25, 0.25}, {0.7, 0.1, 0.1, 0.1}}) n += split(s.getCombiSpaces(), s.getCoeffs(), fr);
    // the same combination given explicitly
    { cg::CombiMinMaxScheme e(s.getCombiSpaces(), s.getCoeffs()); REQ(e.getCombiSpaces() == s.getCombiSpaces() && e.getCoeffs() == s.getCoeffs(), "%s: explicit scheme changed", w.c_str()); e.createDownSet(); Set x(e.getDownSet().begin(), e.getDownSet().end()); REQ(x == all, "%s: level set of the explicit scheme", w.c_str()); }
    if (ft) {
      cg::CombiMinMaxScheme f((cg::DimType)dim, lmin, lmax); if (kind) f.createAdaptiveCombischeme(); else f.createClassicalCombischeme();
      size_t before = f.getCombiSpaces().size(); f.makeFaultTolerant();
      n += valid(f.getCombiSpaces(), f.getCoeffs(), lmin, lmax, (w + " fault tolerant").c_str());
      for (size_t i = 0; i < f.getCombiSpaces().size(); ++i) { if (i < before) REQ(f.getCombiSpaces()[i] == s.getCombiSpaces()[i] && f.getCoeffs()[i] == s.getCoeffs()[i], "%s: making it fault tolerant changed grid %d", w.c_str(), (int)i); else { REQ(f.getCoeffs()[i] == 0, "%s: extra grid with coefficient %g", w.c_str(), f.getCoeffs()[i]); REQ(all.count(f.getCombiSpaces()[i]), "%s: extra grid %s is not contained in the scheme", w.c_str(), S(f.getCombiSpaces()[i]).c_str()); } }
    }
  }
  return n;
}
}  // namespace
int main(int argc, char** argv) {
  { struct rlimit r = {12ul << 30, 12ul << 30}; setrlimit(RLIMIT_AS, &r); }  // runaway generators end as an error
  hz::Harness h(argc, argv, "C10");
  bool T = h.thorough();
  struct B { int dim, lo, hi, df, g; };
  vector<B> bs = {{1, 1, 5, 6, 7}, {2, 1, 4, 6, 9}, {3, 1, T ? 3 : 2, T ? 4 : 3, 5}, {3, 3, 3, 4, 3}, {4, 1, T ? 2 : 1, 3, 4}, {4, 2, 2, 2, 3}, {5, 1, 1, T ? 3 : 2, 3}, {6, 1, 1, T ? 2 : 1, 2}};
  for (auto b : bs) for (auto& lo : box(IV(b.dim, b.lo), IV(b.dim, b.hi))) for (int f = 0; f <= b.df; ++f)
    h.add(hz::fmt("scheme d=%d lmin=%s diff0=%d max=%d", b.dim, hz::vs(lo).c_str(), f, b.df), [=](hz::Ctx& c) {
      IV z(b.dim, 0), t(b.dim, b.df); z[0] = t[0] = f;
      for (auto& df : box(z, t)) {
        LV lmin, lmax; for (int d = 0; d < b.dim; ++d) { lmin.push_back(lo[d]); lmax.push_back(lo[d] + df[d]); }
        auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = 1;
        c.check("diff=" + hz::vs(df), o, [=](int) { *n = one(lmin, lmax, b.g, true, b.dim <= 3); });
        if (c.failed) return;
        c.count(*n); c.nontriv(); c.progressMark();
      }
    });
  struct L { int dim, lo, df; }; 
  for (auto b : vector<L>{{2, 1, 17}, {3, 1, 9}, {3, 2, 12}, {4, 1, 6}, {4, 1, 7}, {5, 1, 4}, {5, 1, 5}, {6, 1, 3}, {6, 1, 4}, {7, 1, 2}}) { if (!T && (b.df == 12)) continue;
    h.add(hz::fmt("large d=%d lmin=%d diff=%d", b.dim, b.lo, b.df), [=](hz::Ctx& c) { auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = 1; c.check("scheme", o, [=](int) { *n = one(LV(b.dim, b.lo), LV(b.dim, b.lo + b.df), 3, true, false); }); c.count(*n); if (!c.failed) c.nontriv(); });
  }
  // splitting: all numbers of grids and all fractions in tenths
  for (int ns = 2; ns <= 4; ++ns) h.add(hz::fmt("split %d systems", ns), [=](hz::Ctx& c) {
    for (auto& f : cube(ns, 0, 10)) { int s = 0; for (int x : f) s += x; if (s != 10) continue;
      auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = 1;
      c.check("tenths=" + hz::vs(f), o, [=](int) { vector<double> fr; for (int x : f) fr.push_back(x / 10.); for (int m : {1, 2, 3, 5, 9, 10, 11, 33}) { vector<LV> l; vector<double> cs; for (int i = 0; i < m; ++i) { l.push_back(LV{i + 1, m - i}); cs.push_back(i % 2 ? -1 - i : 1 + i); } *n += split(l, cs, fr); } });
      if (c.failed) return; c.count(*n); c.nontriv(); c.progressMark(); }
  });
  // down sets of single levels, incremental generator
  for (int dim = 1; dim <= 4; ++dim) h.add(hz::fmt("downset d=%d", dim), [=](hz::Ctx& c) {
    for (auto& l : cube(dim, 1, dim < 4 ? 5 : 3)) { vmpi::Options o; o.nranks = 1;
      c.check("level=" + hz::vs(l), o, [=](int) {
        LV x(l.begin(), l.end()); Set e; down(x, e); auto g = cg::getDownSet(x); Set s(g.begin(), g.end()); REQ(s.size() == g.size() && s == e, "down set of %s has %d of %d members", S(x).c_str(), (int)g.size(), (int)e.size());
        cg::HypercubeDownSetGenerator gen(x); REQ(gen.getTotalNumberOfLevels() == (int)e.size(), "number of levels of the generator"); Set s2; for (size_t i = 0; i < e.size(); ++i) { auto y = gen.getNextLevel(); REQ(y == g[i], "level %d of the generator for %s is %s instead of %s", (int)i, S(x).c_str(), S(y).c_str(), S(g[i]).c_str()); }
      });
      if (c.failed) return; c.count(prod(l)); c.nontriv(); }
  });
  // schemes from files: same on every rank, assignment is a partition
  for (int nr = 1; nr <= 3; ++nr) for (int k = 0; k < 4; ++k) h.add(hz::fmt("file ranks=%d k=%d", nr, k), [=](hz::Ctx& c) {
    for (int dim = 1; dim <= 3; ++dim) for (int df = 1; df <= 3; ++df) for (int ng = 1; ng <= 4; ++ng) { vmpi::Options o; o.nranks = nr;
      c.check(hz::fmt("d=%d diff=%d groups=%d", dim, df, ng), o, [=](int r) {
        LV lmin(dim, 1), lmax(dim, 1 + df); cg::CombiMinMaxScheme s((cg::DimType)dim, lmin, lmax); s.createClassicalCombischeme();
        auto& ls = s.getCombiSpaces(); auto& cs = s.getCoeffs(); int m = ls.size(); auto grp = [&](int i) { return k == 0 ? i % ng : k == 1 ? i * ng / m : (i * 7 + 1) % ng; };
        if (r == 0) { std::ofstream f("scheme.json"); f << "[\n"; for (int i = 0; i < m; ++i) { std::string lev = "\"level\": ["; for (int d = 0; d < dim; ++d) lev += (d ? ", " : "") + std::to_string(ls[i][d]); lev += "]"; std::string co = "\"coeff\": " + std::to_string(cs[i]), g = "\"group_no\": " + std::to_string(grp(i)); f << "{" << (k == 1 ? lev + ", " + co + ", " + g : k == 2 ? g + ", " + lev + ", " + co : k == 3 ? co + ", " + lev : co + ",\n " + lev + ",\n " + g) << "}" << (i + 1 < m ? "," : "") << "\n"; } f << "]\n"; }
        MPI_Barrier(MPI_COMM_WORLD);
        cg::CombiMinMaxSchemeFromFile q((cg::DimType)dim, lmin, lmax, "scheme.json", MPI_COMM_WORLD);
        REQ(q.getCombiSpaces() == ls, "levels of the scheme from file differ"); REQ(q.getCoeffs() == cs, "coefficients of the scheme from file differ");
        if (k == 3) { REQ(q.getProcessGroupNumbers().empty(), "group numbers without assignment"); vector<LV> l; vector<double> co; vector<size_t> t; bool th = false; try { cg::getAssignedLevels(q, 0, l, co, t); } catch (std::runtime_error&) { th = true; } REQ(th, "assignment taken from a file that has none"); MPI_Barrier(MPI_COMM_WORLD); return; }
        vector<int> seen(m, 0);
        for (int g = 0; g < ng; ++g) { vector<LV> l; vector<double> co; vector<size_t> t; size_t tot = cg::getAssignedLevels(q, g, l, co, t); REQ((int)tot == m, "total"); for (size_t i = 0; i < t.size(); ++i) { REQ(!seen[t[i]] && grp(t[i]) == g && l[i] == ls[t[i]] && co[i] == cs[t[i]], "grid %d assigned wrongly", (int)t[i]); seen[t[i]] = 1; } }
        for (int i = 0; i < m; ++i) REQ(seen[i], "grid %d not assigned", i);
        MPI_Barrier(MPI_COMM_WORLD);
      });
      if (c.failed) return; c.count(10); c.nontriv(); c.progressMark(); }
  });
  h.rule = "every scheme: distinct levels within the range, coefficients sum to one, each contained subspace counted once, level sets down-closed and equal to the subspaces of the grids; every distribution over groups or systems is a partition";
  h.bounds = T ? "all minimum levels and level differences: d=1 (<=5,<=6), d=2 (<=4,<=6), d=3 (<=3,<=4), d=4 (<=2,<=3), d=5 (1,<=3), d=6 (1,<=2); large even schemes up to d=7" : "all minimum levels and level differences: d=1 (<=5,<=6), d=2 (<=4,<=6), d=3 (<=2,<=3), d=4 (1,<=3), d=5 (1,<=2), d=6 (1,<=1); large even schemes up to d=7";
  h.assumptions = {"fractions of a split sum to one", "at least as many grids as groups when distributing round robin or load balanced"};
  return h.run();
}
