// C04: task bookkeeping under all completion orders and reassignment histories.
#include "mgr.hpp"
using namespace ref;
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C04");
  bool T = h.thorough();
  typedef vector<std::pair<int, int>> ML;
  auto add = [&](Cfg f, const std::string& ops, const vector<ML>& moves, int bound, const char* tag) {
    std::string id = (f.nfields > 1 ? hz::fmt("fields%d ", f.nfields) : std::string()) + hz::fmt("v%d g%d p%s n%zu %s %s", f.variant, f.ngroup, hz::vs(f.procs).c_str(), f.levels.size(), tag, ops.c_str());
    for (auto& m : moves) { id += " ["; for (auto& x : m) id += hz::fmt("%d+%d ", x.first, x.second); id += "]"; }
    if (bound) id += hz::fmt(" bound%d", bound);
    h.add(id, [=](hz::Ctx& c) {
      Program P = program(f, ops); P.moves = moves; Shared* S = new Shared;
      auto run = [&](const std::string& name, vmpi::Options o) {
        o.nranks = f.workers() + 1; reset(*S, P.c);
        c.check(name, o, [&](int rk) { programBody(P, *S, rk); }, [&](const vmpi::Result&) { auto e = auditTasks(P, *S); c.count(S->compared + S->commands); reset(*S, P.c); return e; });
        c.progressMark();
      };
      { vmpi::Options o; o.syncColl = false; o.reverseSched = true; o.lateDelivery = true; run("weakcoll", o); }
      if (bound) {
      { vmpi::Options o; o.bound = bound; o.testChoice = true; o.maxExec = T ? 60000 : 4000; run("completion order", o); }
      { vmpi::Options o; o.bound = 1; o.testChoice = true; o.syncColl = false; o.reverseSched = true; o.schedChoice = true; o.maxExec = T ? 20000 : 1500; run("schedules", o); }
      }
      if (!c.failed) c.nontriv();
      delete S;
    });
  };
  Cfg b3; b3.lmin = {1, 1}; b3.lmax = {2, 2}; b3.bnd = {2, 2}; b3.basis = {HAT, HAT}; classical(b3.lmin, b3.lmax, b3.levels, b3.coeffs);
  Cfg b5 = b3; b5.lmax = {3, 3}; b5.levels.clear(); b5.coeffs.clear(); classical(b5.lmin, b5.lmax, b5.levels, b5.coeffs);
  Cfg b1 = b3; b1.bnd = {1, 1}; b1.basis = {HATP, HATP};
  auto lay = [](Cfg f, int ng, IV p, int v = 0) { f.ngroup = ng; f.procs = p; f.variant = v; return f; };
  // every move list with at most n moves of different grids
  auto lists = [](int grids, int ng, int n) {
    vector<ML> all; std::function<void(ML)> rec = [&](ML m) { if (!m.empty()) all.push_back(m); if ((int)m.size() == n) return; for (int g = 0; g < grids; ++g) { bool used = false; for (auto& x : m) used |= x.first == g; if (used) continue; for (int o = 1; o < ng; ++o) { ML q = m; q.push_back({g, o}); rec(q); } } };
    rec({}); return all;
  };
  // 1. initial assignment: all completion orders, several group counts, task counts
  for (auto& f : {b3, b5}) for (int ng = 1; ng <= 4; ++ng) for (auto& p : vector<IV>{{1, 1}, {2, 1}}) { if (ng * prod(p) > 6 || ng > (int)f.levels.size()) continue; for (const char* s : {"", "R", "RR", "CR", "RCR"}) add(lay(f, ng, p), s, {}, T ? 6 : 4, "start"); }
  // 2. all histories over run, combine, move, reset, redistribute, recompute
  int maxLen = T ? 6 : 5;
  struct L { Cfg f; int moves; };
  vector<L> ls = {{lay(b3, 2, {1, 1}), 3}, {lay(b3, 3, {1, 1}), 2}, {lay(b1, 2, {2, 1}), 2}, {lay(b5, 2, {1, 1}), T ? 2 : 1}};
  for (size_t li = 0; li < ls.size(); ++li) {
    auto& l = ls[li]; auto ml = lists((int)l.f.levels.size(), l.f.ngroup, l.moves), m1 = lists((int)l.f.levels.size(), l.f.ngroup, 1);
    std::function<void(std::string)> rec = [&](std::string s) {
      for (char a : std::string("RCSZXY0I")) {
        if (a == 'S' && (s.empty() || s.back() != 'C')) continue;
        if (a == 'Y' && s.find('C') == std::string::npos) continue;    // recomputing starts from the combined solution
        if ((a == '0' || a == 'I') && (s.empty() || !strchr("SXYZ", s.back()))) continue;
        std::string q = s + a; bool re = q.find_first_of("SZXY") != std::string::npos; int ns = (int)std::count(q.begin(), q.end(), 'S');
        if (re) {
          if (ns == 0) add(l.f, q, {}, 0, "hist");
          else if (ns == 1) for (auto& m : ml) { if (m.size() > 1 && q.size() > 3 && !T) continue; add(l.f, q, {m}, 0, "hist"); }
          else if (ns == 2) { for (auto& m : m1) for (auto& n : m1) add(l.f, q, {m, n}, 0, "hist"); }
        }
        if ((int)q.size() < maxLen - (li > 0 && !T)) rec(q);
      }
    };
    rec("");
    // the moved tasks take part in everything afterwards
    for (auto& m : ml) for (const char* s : {"CSRCR", "RCSRRC", "CSCR", "CSIRC0", "CSZCR", "CSXCRC", "CSYRC", "CSURC", "CSDdC", "CSTRC", "CSlLVRC"}) add(l.f, s, {m}, 0, "after");
  }
  // 3. completion orders during reassignment
  for (auto& f : vector<Cfg>{lay(b3, 2, {1, 1}), lay(b3, 3, {1, 1}), lay(b3, 2, {2, 1}), lay(b5, 3, {1, 1})}) for (const char* s : {"CSR", "CSRC", "CXR", "CXRC", "CYR", "CYRC", "CZRC"}) { if (strchr(s, 'S')) for (auto& m : lists((int)f.levels.size(), f.ngroup, 1)) add(f, s, {m}, 2, "order"); else add(f, s, {}, 2, "order"); }
  for (int v = 1; v < 3; ++v) for (int ng = 2; ng <= 3; ++ng) for (auto& m : lists(3, ng, 1)) for (const char* s : {"CS"}) add(lay(b3, ng, {1, 1}, v), s, {m}, 0, "variant");
  // several grids per task move together
  for (auto& f : vector<Cfg>{lay(b3, 2, {1, 1}), lay(b3, 2, {2, 1}), lay(b5, 3, {1, 1})}) for (auto& m : lists((int)f.levels.size(), f.ngroup, 1)) for (const char* s : {"CSRC", "RCSC", "CSXRC", "CSYRC", "CSER"}) { Cfg g = f; g.nfields = 2; add(g, s, {m}, 0, "fields"); }
  // reduced combination space: what a grid does not get from the sparse grid is defined too
  for (IV red : vector<IV>{{1, 1}, {1, 0}, {2, 2}}) for (auto& f : vector<Cfg>{lay(b5, 2, {1, 1}), lay(b5, 3, {1, 1}), lay(b5, 2, {2, 1})}) { Cfg g = f; g.reduceLmax = red; for (const char* s : {"CYR", "RCYRC", "CXR", "RCXRC", "CZRC", "RCC"}) add(g, s, {}, 0, "reduced"); for (auto& m : lists((int)f.levels.size(), f.ngroup, 1)) if (f.ngroup == 2 && prod(f.procs) == 1 && red[1]) add(g, "CS", {m}, 0, "reduced-move"); }
  // many tasks and groups
  { Cfg f = b3; f.lmin = {1, 1}; f.lmax = {10, 10}; f.bnd = {1, 1}; f.basis = {HATP, HATP}; f.levels.clear(); f.coeffs.clear(); classical(f.lmin, f.lmax, f.levels, f.coeffs);
    Cfg f3 = b3; f3.lmin = {1, 1, 1}; f3.lmax = {4, 4, 4}; f3.bnd = {2, 1, 2}; f3.basis = {HAT, HATP, HAT}; f3.levels.clear(); f3.coeffs.clear(); classical(f3.lmin, f3.lmax, f3.levels, f3.coeffs);
    for (int ng : {3, 8, 12}) { ML m; for (int k = 0; k < 12; ++k) m.push_back({k, 1 + k % (ng - 1)}); for (const char* s : {"RCSRC", "RCSCSRRC", "CSXRC", "CSZRC", "CSURC"}) { const bool two = std::count(s, s + strlen(s), 'S') == 2; add(lay(f, ng, {1, 1}), s, two ? vector<ML>{m, {m[3], m[11]}} : vector<ML>{m}, 0, "many"); add(lay(f3, ng, {1, 1, 1}), s, two ? vector<ML>{m, {m[3], m[11]}} : vector<ML>{m}, 0, "many3d"); } } }
  h.rule = "each task initialised and advanced once per phase by all ranks of one group; lists of manager and workers equal; values, steps, level, coefficient equal the sequential model";
  h.bounds = T ? "<=5 grids, <=4 groups, histories of length <=6, <=3 moves per rescheduling, <=6 completion-order deviations; selected histories of 19 and more grids on 3, 8 and 12 groups" : "<=5 grids, <=4 groups, histories of length <=5, <=3 moves per rescheduling, <=4 completion-order deviations; selected histories of 19 and more grids on 3, 8 and 12 groups";
  h.assumptions = {"tasks are moved directly after a combination and only between groups that hold the complete sparse grid (sparseGridReduce)", "a rescheduler names each task at most once"};
  return h.run();
}
