// C03: all short command sequences of the manager, under all buffering modes and bounded schedules.
#include "mgr.hpp"
using namespace ref;
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C03");
  bool T = h.thorough();
  auto cfg = [](IV lmin, IV lmax, IV b, IV ba, IV p, int ng, int variant) { Cfg f; f.lmin = lmin; f.lmax = lmax; f.bnd = b; f.basis = ba; f.procs = p; f.ngroup = ng; f.variant = variant; return f; };
  struct Mode { const char* name; vmpi::Options o; };
  vector<Mode> modes;
  auto mode = [&](const char* n, std::function<void(vmpi::Options&)> f) { vmpi::Options o; f(o); modes.push_back({n, o}); };
  mode("buffered", [](vmpi::Options&) {});
  mode("rendezvous", [](vmpi::Options& o) { o.rendezvous = true; o.lateDelivery = true; });
  mode("weakcoll", [](vmpi::Options& o) { o.syncColl = false; o.reverseSched = true; o.lateDelivery = true; });
  mode("weakrdv", [](vmpi::Options& o) { o.syncColl = false; o.rendezvous = true; });
  auto add = [&](Cfg f, const std::string& ops, int bound, bool allModes, int tl = 0) {
    std::string id = (f.nfields > 1 ? hz::fmt("fields%d ", f.nfields) : std::string()) + hz::fmt("v%d g%d p%s b%s %s", f.variant, f.ngroup, hz::vs(f.procs).c_str(), hz::vs(f.bnd).c_str(), ops.c_str()) + (tl ? hz::fmt(" tl%d", tl) : "") + (bound ? hz::fmt(" bound%d", bound) : "");
    h.add(id, [=](hz::Ctx& c) {
      Program P = program(f, ops); P.tlgroup = tl; Shared* S = new Shared;
      auto run = [&](const std::string& name, vmpi::Options o) {
        o.nranks = f.workers() + 1;
        reset(*S, P.c);
        c.check(name, o, [&](int rk) { programBody(P, *S, rk); }, [&](const vmpi::Result&) { auto e = auditTasks(P, *S); c.count(S->compared + S->commands); reset(*S, P.c); return e; });
        c.progressMark();
      };
      for (size_t m = 0; m < modes.size(); ++m) if (allModes || m == 1 || m == 2) run(modes[m].name, modes[m].o);
      if (bound) {
        vmpi::Options o; o.bound = bound; o.sendChoice = true; o.testChoice = true; o.maxExec = T ? 40000 : 3000; run("choices", o);
        vmpi::Options q; q.bound = bound; q.rendezvous = true; q.schedChoice = true; q.maxExec = T ? 40000 : 3000; run("sched", q);
      }
      if (!c.failed) c.nontriv();
      delete S;
    });
  };
  Cfg base = cfg({1, 1}, {2, 2}, {2, 2}, {HAT, HAT}, {1, 1}, 2, 0);
  const std::string full = "RC012IEeDdUSWGMT";
  auto legal = [](const std::string& s, int variant) {
    bool comb = false, written = false;
    for (char o : s) {
      if (o == 'C' || o == 'T') comb = true;
      if (o == 'T' && variant != 0) return false;
      if (variant == 3 && (o == 'E' || o == 'e' || o == 'W' || o == 'G' || o == 'M' || o == 'T')) return false;
      if ((o == 'E' || o == 'e' || o == 'W' || o == 'M') && !comb) return false;
      if (o == 'W') written = true;
      if (o == 'G' && !written) return false;
    }
    return true;
  };
  auto lay = [&](int ng, IV p, int v) { Cfg f = base; f.ngroup = ng; f.procs = p; f.variant = v; return f; };
  // all sequences of two (thorough: three) commands after a combination: every layout, variant and library mode
  for (auto& l : vector<std::pair<int, IV>>{{1, {1, 1}}, {1, {2, 1}}, {2, {1, 1}}, {2, {2, 1}}, {3, {1, 1}}, {3, {1, 2}}, {2, {2, 2}}}) for (int v = 0; v < 4; ++v)
    for (char a : full) for (char b : full) { std::string s = std::string("C") + a + b; if (!legal(s, v)) continue; add(lay(l.first, l.second, v), s, 0, true); if (T) for (char d : full) if (legal(s + d, v)) add(lay(l.first, l.second, v), s + d, 0, true); }
  // all sequences from the start, two groups
  std::function<void(std::string, size_t)> rec = [&](std::string s, size_t n) { for (char a : full) { std::string q = s + a; if (!legal(q, 0)) continue; if (q.size() >= 3) add(lay(2, {1, 1}, 0), q, 0, false); if (q.size() < n) rec(q, n); } };
  rec("", T ? 5 : 4);
  // third-level group other than the first
  for (auto& l : vector<std::pair<int, IV>>{{2, {1, 1}}, {3, {1, 1}}, {2, {2, 1}}}) for (int tl = 1; tl < l.first; ++tl) for (char a : full) for (const char* pre : {"CT", "T", "CW", "CR", "CI"}) { std::string s = std::string(pre) + a; if (legal(s, 0)) add(lay(l.first, l.second, 0), s, 0, true, tl); if (legal(s + "TC", 0)) add(lay(l.first, l.second, 0), s + "TC", 0, true, tl); }
  // bounded deviations of schedules, buffering and status polling
  for (auto& l : vector<std::pair<int, IV>>{{1, {2, 1}}, {2, {1, 1}}, {2, {2, 1}}, {3, {1, 1}}, {3, {2, 1}}}) for (const char* s : {"RC", "CRC", "CIC", "C0C", "CIIR", "C012", "CDdC", "CEe", "CWGC", "CMC", "TC", "USC", "CTI", "ICI", "CIU", "CMM", "CWDG", "lC", "CVL"}) for (int v = 0; v < 4; ++v) if (legal(s, v)) add(lay(l.first, l.second, v), s, l.first * prod(l.second) > 4 ? 1 : 2, false);
  // several grids per task
  for (auto& l : vector<std::pair<int, IV>>{{1, {1, 1}}, {2, {1, 1}}, {2, {2, 1}}, {3, {1, 1}}}) for (int nf : {2, 3}) for (const char* s : {"CRC", "RCRC", "CEe", "CWGC", "CRWCGE", "CMC", "CDUC", "C0lC"}) for (int v = 0; v < 3; ++v) if (legal(s, v)) { Cfg f = lay(l.first, l.second, v); f.nfields = nf; add(f, s, 0, true); }   // the third level takes one grid only
  // long programs on many groups and larger groups
  for (auto& l : vector<std::pair<int, IV>>{{5, {1, 1}}, {7, {1, 1}}, {4, {2, 1}}, {3, {2, 2}}}) for (const char* s : {"RCRCWGC0E1IeDdUS2MRCTC", "CI0R12CEDWdGUMSeC", "CRRRCRRRCRCRCRCRC", "UCDIDCIDI", "lCLCVCRC"}) for (int v = 0; v < 4; ++v) { std::string q; for (const char* p = s; *p; ++p) if (legal(q + *p, v)) q += *p; Cfg f = lay(l.first, l.second, v); f.lmax = {4, 4}; f.levels.clear(); f.coeffs.clear(); add(f, q, 0, true); }
  h.rule = "no deadlock, livelock, mismatched or left-over message or request in any execution; grids and results equal the sequential model; tasks run once per phase";
  h.bounds = T ? "all legal command sequences of length <=5 over 16 commands (2 groups), <=4 for 7 layouts and 4 variants; 4 library modes; <=2 deviations on selected sequences; long programs on 3-7 groups" : "all legal command sequences of length <=4 over 16 commands (2 groups), <=3 for 7 layouts and 4 variants; 4 library modes; <=2 deviations on selected sequences; long programs on 3-7 groups";
  h.assumptions = {"a group receives a new command only through the manager interface", "sparse grid data is evaluated or written only after a combination"};
  return h.run();
}
