// C13: rescheduling decisions; all task distributions, measured durations, predictions and parameters of a small alphabet.
#include "common.hpp"
#include <filesystem>
#include "loadmodel/AverageOfLastNLoadModel.hpp"
#include "loadmodel/AveragingLoadModel.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "rescheduler/RebalancingTaskRescheduler.hpp"
#include "rescheduler/StaticTaskRescheduler.hpp"
using namespace ref;
namespace cg = combigrid;
namespace {
typedef cg::LevelVector LV;
typedef unsigned long ul;
struct Model : cg::MicrocsecondsLearningLoadModel {
  std::map<LV, ul> p;
  void addDurationInformation(const cg::DurationInformation&, const LV&) override {}
  std::chrono::microseconds evalSpecificUOT(const LV& l) override { return std::chrono::microseconds((long)p[l]); }
  double eval(const LV& l) override { return p[l]; }
};
LV level(int i) { return LV{i % 3 + 1, 5 - i}; }  // map order differs from the task order
// the statement, for one decision
void judge(const std::map<LV, int>& where, const std::map<LV, ul>& dur, bool exact, unsigned maxIt, double inb, const vector<std::pair<LV, int>>& mv, std::map<LV, int>* out = 0) {
  std::set<int> groups; for (auto& w : where) groups.insert(w.second);
  auto after = where; std::set<LV> seen;
  REQ(mv.size() <= maxIt, "%d moves with at most %d iterations", (int)mv.size(), maxIt);
  for (auto& m : mv) {
    REQ(where.count(m.first), "task %s does not exist", hz::vs(m.first).c_str()); REQ(seen.insert(m.first).second, "task %s is moved twice", hz::vs(m.first).c_str());
    REQ(groups.count(m.second), "group %d does not exist", m.second); REQ(where.at(m.first) != m.second, "task %s is moved to its own group %d", hz::vs(m.first).c_str(), m.second);
    after[m.first] = m.second;
  }
  std::map<int, int> cnt; for (auto& w : after) cnt[w.second]++; for (int g : groups) REQ(cnt[g] > 0, "group %d loses its last task", g);
  auto loads = [&](const std::map<LV, int>& w) { std::map<int, ul> r; for (int g : groups) r[g] = 0; for (auto& t : w) { auto it = dur.find(t.first); if (it != dur.end()) r[t.second] += it->second; } return r; };
  auto b = loads(where), a = loads(after); ul bmax = 0, bmin = ~0ul, amax = 0, amin = ~0ul, tot = 0;
  for (auto& x : b) { bmax = std::max(bmax, x.second); bmin = std::min(bmin, x.second); tot += x.second; }
  for (auto& x : a) { amax = std::max(amax, x.second); amin = std::min(amin, x.second); }
  if (exact) { REQ(amax <= bmax && amin >= bmin, "loads between %lu and %lu become %lu to %lu", bmin, bmax, amin, amax); if (bmax == bmin) REQ(mv.empty(), "balanced loads lead to %d moves", (int)mv.size()); }
  if ((double)bmax < inb * (double)(tot / groups.size()) * (1 - 1e-12)) REQ(mv.empty(), "moves although the slowest group has %lu of a total of %lu on %d groups, tolerated %g times the average", bmax, tot, (int)groups.size(), inb);
  if (out) *out = after;
}
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C13");
  bool T = h.thorough();
  vector<unsigned> its = {0, 1, 2, 3, 10, 300}; vector<double> inbs = {0, 0.5, 1, 1.2, 1.9, 2, 10};
  vector<ul> alpha = {0, 1, 2, 5, 7, 100, 3000000000ul};
  auto single = [&](int nt, int ng, int na, int mode) {
    // mode 0: predictions equal measurements; 1: predictions from {0,1,6}; 2: one measurement missing; 3: measurements of tasks that are not there
    for (auto& as : cube(nt, 0, ng - 1)) h.add(hz::fmt("tasks=%d groups=%d alphabet=%d mode=%d at=%s", nt, ng, na, mode, hz::vs(as).c_str()), [=](hz::Ctx& c) {
      auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = 1;
      for (auto& du : cube(nt, 0, na - 1)) for (auto& pr : (mode == 1 ? cube(nt, 0, 2) : vector<IV>{IV(nt, 0)})) {
        c.check("durations=" + hz::vs(du) + (mode == 1 ? " predictions=" + hz::vs(pr) : ""), o, [=](int) {
          std::map<LV, int> where; std::map<LV, ul> dur; Model m;
          for (int i = 0; i < nt; ++i) { where[level(i)] = as[i] * 2 + 1; dur[level(i)] = alpha[du[i]]; m.p[level(i)] = mode == 1 ? (ul)vector<int>{0, 1, 6}[pr[i]] : alpha[du[i]]; }
          for (int k = 0; k < (mode >= 2 ? nt : 1); ++k) {
            auto d = dur; if (mode == 2) d.erase(level(k)); if (mode == 3) d[LV{9, k}] = alpha[na - 1];
            for (unsigned it : its) for (double inb : inbs) { cg::RebalancingTaskRescheduler r(it, inb); auto w0 = where; auto d0 = d; auto mv = r.eval(where, d, &m); judge(where, d, mode == 0 || mode == 3, it, inb, mv); REQ(w0 == where && d0 == d, "inputs changed"); ++*n; }
          }
        });
        if (c.failed) return; c.progressMark();
      }
      c.count(*n); c.nontriv();
    });
  };
  single(1, 1, 5, 0); single(2, 2, 7, 0); single(3, 2, 7, 0); single(3, 3, 6, 0); single(4, 2, 5, 0); single(4, 3, 5, 0); single(5, 2, 4, 0); single(5, 3, T ? 4 : 3, 0); single(6, 3, T ? 3 : 2, 0);
  single(2, 2, 6, 1); single(3, 2, 6, 1); single(3, 3, 5, 1); single(4, 2, T ? 5 : 3, 1); single(4, 3, T ? 4 : 2, 1);
  single(3, 2, 5, 2); single(4, 3, 3, 2); single(3, 2, 5, 3); single(4, 3, 3, 3); single(1, 1, 3, 2);
  // histories: measured durations feed the model, moves are executed
  for (int nt = 2; nt <= 4; ++nt) for (int ng = 2; ng <= std::min(nt, 3); ++ng) for (unsigned N = 1; N <= 3; ++N) for (auto& as : cube(nt, 0, ng - 1)) h.add(hz::fmt("history tasks=%d groups=%d last=%d at=%s", nt, ng, N, hz::vs(as).c_str()), [=](hz::Ctx& c) {
    int steps = nt == 2 ? 4 : nt == 3 ? 3 : 2; auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = 1;
    for (auto& all : cube(nt * steps, 0, nt == 2 ? 3 : 2)) {
      if (!T && nt == 4 && (all[0] + all[5]) % 3) continue;
      c.check("durations=" + hz::vs(all), o, [=](int) {
        vector<LV> ts; std::map<LV, int> where; for (int i = 0; i < nt; ++i) { ts.push_back(level(i)); where[level(i)] = as[i]; }
        cg::AverageOfLastNLoadModel m(N, ts, std::unique_ptr<cg::LoadModel>(new cg::LinearLoadModel())); std::map<LV, vector<ul>> hist; std::map<LV, ul> dur;
        for (auto& t : ts) { REQ(m.evalSpecificUOT(t).count() == 0, "prediction without history is %ld", (long)m.evalSpecificUOT(t).count()); cg::LinearLoadModel ll; REQ(m.eval(t) == ll.eval(t), "load without history"); }
        { cg::RebalancingTaskRescheduler r(5, 1.1); judge(where, dur, false, 5, 1.1, r.eval(where, dur, &m)); }
        for (int s = 0; s < steps; ++s) {
          for (int i = 0; i < nt; ++i) { ul v = vector<ul>{0, 3, 4000000001ul, 11}[all[s * nt + i]]; hist[ts[i]].push_back(v); dur[ts[i]] = v; cg::DurationInformation di{}; di.task_id = i; di.duration = v; m.addDurationInformation(di, ts[i]); }
          bool exact = true;
          for (int i = 0; i < nt; ++i) { auto& q = hist[ts[i]]; size_t k = std::min<size_t>(N, q.size()); long double e = 0; for (size_t j = 0; j < k; ++j) e += q[q.size() - 1 - j]; e /= k; long p = m.evalSpecificUOT(ts[i]).count(); REQ(std::abs((double)(p - e)) < 1, "prediction %ld instead of the average %.1Lf of the last %d durations", p, e, (int)k); REQ(std::abs(m.eval(ts[i]) - (double)e) < 1, "load differs from the average"); exact &= p == (long)q.back(); }
          cg::RebalancingTaskRescheduler r(3, 1.05); auto mv = r.eval(where, dur, &m); judge(where, dur, exact, 3, 1.05, mv, &where); ++*n;
        }
      });
      if (c.failed) return;
    }
    c.count(*n); c.nontriv(); c.progressMark();
  });
  // the model that keeps its measurements in files: sessions of n1, n2, n3 measurements of two tasks
  for (int n1 : {0, 1, 2, 3, 49, 50, 51, 52, 101}) for (int n2 : {0, 1, 2, 50, 51, 52}) for (int n3 : {0, 1, 51}) h.add(hz::fmt("measurements in files sessions=%d,%d,%d", n1, n2, n3), [=](hz::Ctx& c) { vmpi::Options o; o.nranks = 1; c.check("", o, [=](int) {
    vector<LV> ts = {level(0), level(1)}; for (auto& e : std::filesystem::directory_iterator(".")) if (e.is_regular_file()) std::filesystem::remove(e.path());
    std::map<LV, vector<ul>> hist; unsigned x = 1; cg::LinearLoadModel ll;
    for (int n : {n1, n2, n3}) {
      std::map<LV, size_t> before; for (auto& t : ts) before[t] = hist[t].size();
      {
        cg::AveragingLoadModel m(ts);
        for (auto& t : ts) { long double e = 0; for (ul v : hist[t]) e += v; if (hist[t].empty()) REQ(m.eval(t) == ll.eval(t), "load without history is %.15g", m.eval(t)); else { e /= hist[t].size(); REQ(std::abs(m.eval(t) - (double)e) <= 1, "load %.15g instead of the recorded average %.3Lf", m.eval(t), e); } }
        for (int k = 0; k < n; ++k) for (auto& t : ts) {
          x = x * 1103515245 + 12345; cg::DurationInformation di{}; di.duration = (x >> 8) % 3 ? (x >> 8) % 100000 : 4000000001ul + (x >> 20); hist[t].push_back(di.duration); m.addDurationInformation(di, t);
          // the average of the most recent measurements of this session
          long double e = 0; bool ok = false; auto& q = hist[t]; for (size_t j = 1; j <= q.size() - before[t] && !ok; ++j) { e += q[q.size() - j]; ok = std::abs((double)(e / j - m.eval(t))) <= 1e-6; } REQ(ok, "load %.15g is no average of the most recent measurements (%zu of them)", m.eval(t), q.size());
        }
      }
    }
    cg::AveragingLoadModel m(ts); for (auto& t : ts) if (hist[t].size()) { long double e = 0; for (ul v : hist[t]) e += v; e /= hist[t].size(); REQ(std::abs(m.eval(t) - (double)e) <= 1, "load %.15g instead of the recorded average %.3Lf", m.eval(t), e); }
  }); c.count(2 * (n1 + n2 + n3) + 8); c.nontriv(); });
  // many tasks and groups
  for (int nt : {10, 40, 300}) for (int ng : {4, 5, 9, 17}) { if (ng > nt) continue; for (int k = 0; k < 6; ++k) h.add(hz::fmt("large tasks=%d groups=%d durations=%d", nt, ng, k), [=](hz::Ctx& c) { vmpi::Options o; o.nranks = 1; auto n = std::make_shared<long>(0);
    for (int s = 0; s < (T ? 200 : 10); ++s) { c.check(hz::fmt("s=%d", s), o, [=](int) {
      std::map<LV, int> where; std::map<LV, ul> dur; Model m; uint64_t x = (uint64_t)(s * 7 + k) * 0x9E3779B97F4A7C15ull + 1;
      for (int i = 0; i < nt; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ul d = k == 0 ? x % 1000 : k == 1 ? 5 : k == 2 ? (ul)1 << (x % 31) : k == 3 ? (i == s % nt ? 100000 : x % 10) : k == 4 ? (x % 4 ? 0 : x % 77) : 3000000000ul + x % 1000000; where[level(i)] = i < ng ? i : k % 2 ? (int)(x >> 33) % ng : std::min<int>(ng - 1, (int)((x >> 33) % (3 * ng))); m.p[level(i)] = dur[level(i)] = d; }
      for (unsigned it : its) for (double inb : inbs) { cg::RebalancingTaskRescheduler r(it, inb); judge(where, dur, true, it, inb, r.eval(where, dur, &m)); ++*n; }
    }); if (c.failed) return; }
    c.count(*n); c.nontriv(); }); }
  h.add("other models", [=](hz::Ctx& c) { vmpi::Options o; o.nranks = 1; c.check("static", o, [=](int) {
    std::map<LV, int> where; std::map<LV, ul> dur; for (int i = 0; i < 4; ++i) { where[level(i)] = i / 3; dur[level(i)] = 10 * (4 - i); }
    cg::LinearLoadModel ll; Model m; cg::StaticTaskRescheduler s; REQ(s.eval(where, dur, &m).empty(), "static rescheduler moves tasks"); cg::RebalancingTaskRescheduler r(5, 1); REQ(r.eval(where, dur, &ll).empty(), "moves without predictions in microseconds");
    std::map<LV, int> none; REQ(r.eval(none, {}, &m).empty(), "moves without tasks");
  }); c.count(3); });
  h.rule = "every decision: existing tasks at most once, to another existing group, no group emptied, within the iteration limit; with exact predictions maximum load never rises and minimum never falls; none if balanced or within the tolerance; predictions are the average of the last N durations";
  h.bounds = "three sessions of up to 101 measurements kept in files; 1-6 tasks on 1-3 groups, all assignments, durations from an alphabet of 2-7 values (0 to 4e9 microseconds), 6 iteration limits, 7 tolerances; histories of 2-4 measurements with executed moves; selected distributions of 10, 40 and 300 tasks on up to 17 groups";
  h.assumptions = {"task levels are pairwise different", "N >= 1"};
  return h.run();
}
