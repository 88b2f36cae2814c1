// Case enumeration, worker processes, evidence and replay files.  Header-only; one driver per executable.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "vmpi.hpp"

namespace hz {
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
template <class V> std::string vs(const V& v) { std::ostringstream o; o << "("; bool c = false; for (auto x : v) { if (c) o << ","; o << +x; c = true; } o << ")"; return o.str(); }
inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += (char)c; }
  return o;
}
inline double wall() { struct timespec t; syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Shared {
  std::atomic<long> next, executions, choicePoints, transitions, nodes, casesDone, capped, violations, nontrivial, evals, vectors;
  std::atomic<int> stop;
  struct Slot { std::atomic<long> cur; std::atomic<double> since; char what[400]; } slot[64];
};
class Ctx;
struct Case { std::string id; std::function<void(Ctx&)> fn; };
struct Violation { std::string caseId, label, kind, msg; std::vector<int> choices; };

class Ctx {
 public:
  Shared* sh; int slot; std::string caseId; std::vector<Violation>* viol; std::unordered_set<uint64_t>* outcomes; std::vector<std::string>* samples;
  std::vector<int> forced; bool hasForced = false; std::string forcedLabel;
  bool failed = false;
  // explores all schedules of body under o
  bool check(const std::string& label, const vmpi::Options& o, const std::function<void(int)>& body,
             const std::function<std::string(const vmpi::Result&)>& after = {}) {
    if (failed) return false;
    if (hasForced && !forcedLabel.empty() && label != forcedLabel) return true;
    snprintf(sh->slot[slot].what, sizeof sh->slot[slot].what, "%s | %s", caseId.c_str(), label.c_str());
    vmpi::ExploreStats st; vmpi::Result bad; bool ok;
    if (hasForced) {
      bad = vmpi::run(o, body, forced);
      if (bad.ok && after) { auto e = after(bad); if (!e.empty()) { bad.ok = false; bad.kind = "property"; bad.msg = e; } }
      ok = bad.ok; st.executions = 1;
    } else {
      ok = vmpi::explore(o, body, st, bad, [&](const vmpi::Result& r) { outcomes->insert(r.outcome); return after ? after(r) : std::string(); });
    }
    sh->executions += st.executions; sh->choicePoints += st.choicePoints; sh->transitions += st.transitions; sh->nodes += st.treeNodes;
    if (st.capped) sh->capped++;
    if (!ok) report(label, bad.kind, bad.msg, bad.choices);
    return ok;
  }
  // the (single) execution has to end with the failure kind `kind`, raised by the body through vmpi::fail
  bool checkFails(const std::string& label, const vmpi::Options& o, const std::function<void(int)>& body, const std::string& kind, const std::string& otherwise) {
    if (failed) return false;
    if (hasForced && !forcedLabel.empty() && label != forcedLabel) return true;
    snprintf(sh->slot[slot].what, sizeof sh->slot[slot].what, "%s | %s", caseId.c_str(), label.c_str());
    vmpi::Result r = vmpi::run(o, body, {});
    outcomes->insert(r.outcome); sh->executions++; sh->transitions += r.steps;
    if (!r.ok && r.kind == kind) return true;
    if (r.ok) report(label, "property", otherwise); else report(label, r.kind, r.msg, r.choices);
    return false;
  }
  // one execution that may succeed or end with the given kind of failure
  bool checkEither(const std::string& label, const vmpi::Options& o, const std::function<void(int)>& body, const std::string& kind) {
    if (failed) return false;
    if (hasForced && !forcedLabel.empty() && label != forcedLabel) return true;
    snprintf(sh->slot[slot].what, sizeof sh->slot[slot].what, "%s | %s", caseId.c_str(), label.c_str());
    vmpi::Result r = vmpi::run(o, body, {});
    outcomes->insert(r.outcome); sh->executions++; sh->transitions += r.steps;
    if (r.ok || r.kind == kind) return true;
    report(label, r.kind, r.msg, r.choices); return false;
  }
  void report(const std::string& label, const std::string& kind, const std::string& msg, const std::vector<int>& choices = {}) {
    failed = true; viol->push_back({caseId, label, kind, msg, choices});
  }
  void count(long evals) { sh->evals += evals; }       // oracle comparisons made
  void nontriv() { sh->nontrivial++; }
  void progressMark() { sh->slot[slot].since = wall(); }
};

class Harness {
 public:
  std::string prop, tier = "quick", evid, replayDir = "replays", only, replay, knownFile; int jobs = 8; double budget = 600; double caseLimit = 120; bool list = false, verbose = false; long seed = 1;
  std::string rule; std::vector<std::string> assumptions; std::string bounds;
  std::vector<Case> cases;
  bool thorough() const { return tier == "thorough"; }
  void add(const std::string& id, std::function<void(Ctx&)> f) { cases.push_back({id, std::move(f)}); }
  Harness(int argc, char** argv, const std::string& p) : prop(p) {
    t0 = wall();
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
      if (a == "--tier") tier = nx(); else if (a == "--evidence") evid = nx(); else if (a == "--replay-dir") replayDir = nx();
      else if (a == "--only") only = nx(); else if (a == "--replay") replay = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
      else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--list") list = true; else if (a == "--verbose") verbose = true;
      else if (a == "--known") knownFile = nx(); else if (a == "--seed") seed = atol(nx().c_str()); else if (a == "--t0") t0 = atof(nx().c_str());
      else if (a == "--case-limit") caseLimit = atof(nx().c_str());
    }
  }
  int run() {
    if (!only.empty()) { std::vector<Case> k; for (auto& c : cases) if (c.id.find(only) != std::string::npos) k.push_back(c); cases = k; }
    if (list) { for (auto& c : cases) printf("%s\n", c.id.c_str()); printf("%zu cases\n", cases.size()); return 0; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof(Shared));
    tmp = fmt("/tmp/hz-%d", getpid());
    mkdir_(tmp);
    if (!replay.empty()) return doReplay();
    loadKnown();
    std::vector<pid_t> pid(jobs, -1);
    double tStart = wall();
    bool budgetHit = false;
    std::vector<std::pair<long, std::string>> suspects;   // crashed or timed out cases
    auto spawn = [&](int w) {
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) { worker(w); _exit(0); }
      pid[w] = p;
    };
    for (int w = 0; w < jobs; ++w) { sh->slot[w].cur = -1; spawn(w); }
    int alive = jobs;
    while (alive > 0) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int w = -1; for (int i = 0; i < jobs; ++i) if (pid[i] == p) w = i;
        if (w < 0) continue;
        pid[w] = -1; --alive;
        long cur = sh->slot[w].cur;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          std::string how = WIFSIGNALED(st) ? fmt("signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("exit code %d", WEXITSTATUS(st));
          if (cur >= 0) suspects.push_back({cur, how + fmt(" while running %s", sh->slot[w].what)});
          sh->slot[w].cur = -1;
          if (suspects.size() > 3) sh->stop = 1;
        }
        if (!sh->stop && sh->next < (long)cases.size()) { spawn(w); ++alive; }
        continue;
      }
      double now = wall();
      if (now - t0 > budget && !sh->stop) { sh->stop = 1; budgetHit = true; }
      for (int w = 0; w < jobs; ++w) if (pid[w] > 0) {
        long cur = sh->slot[w].cur; double since = sh->slot[w].since;
        if (cur >= 0 && now - since > caseLimit) { suspects.push_back({cur, fmt("no answer within %.0f s: %s", caseLimit, sh->slot[w].what)}); sh->slot[w].cur = -1; kill(pid[w], SIGKILL); if (suspects.size() > 3) sh->stop = 1; }
      }
      usleep(2000);
    }
    collect();
    for (auto& s : suspects) confirm(s.first, s.second);
    // report
    int known = 0, real = 0; std::vector<std::string> lines;
    std::set<std::string> knownSeen;
    for (auto& v : viols) {
      int k = matchKnown(v);
      if (k >= 0) { ++known; if (knownSeen.insert(knowns[k].text).second) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), knowns[k].text.c_str()); continue; }
      ++real;
      if (real <= 5) {
        std::string f = fmt("%s/%s-%d.json", replayDir.c_str(), prop.c_str(), real);
        mkdir_(replayDir);
        std::ofstream o(f);
        o << "{\"property\":\"" << prop << "\",\"tier\":\"" << tier << "\",\"case\":\"" << jesc(v.caseId) << "\",\"label\":\"" << jesc(v.label) << "\",\"kind\":\"" << jesc(v.kind) << "\",\"message\":\"" << jesc(v.msg) << "\",\"choices\":[";
        for (size_t i = 0; i < v.choices.size(); ++i) o << (i ? "," : "") << v.choices[i];
        o << "]}\n";
        printf("  case %s [%s]: %s: %s\n", v.caseId.c_str(), v.label.c_str(), v.kind.c_str(), v.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), f.c_str());
      }
    }
    double wt = wall() - t0;
    writeEvidence(wt, real, known, budgetHit);
    printf("%s %s: cases %ld/%zu executions %ld choice-points %ld transitions %ld comparisons %ld outcomes %zu capped %ld violations %d known %d wall %.1f s%s\n",
           prop.c_str(), tier.c_str(), (long)sh->casesDone, cases.size(), (long)sh->executions, (long)sh->choicePoints, (long)sh->transitions, (long)sh->evals, outcomes.size(), (long)sh->capped, real, known, wt, budgetHit ? " (time budget reached)" : "");
    fflush(stdout);
    rmTmp();
    (void)tStart;
    return real ? 1 : 0;
  }

 private:
  Shared* sh = nullptr; std::string tmp; double t0; std::vector<Violation> viols; std::unordered_set<uint64_t> outcomes; std::vector<std::string> samples;
  struct Known { std::string caseSub, msgSub, text; }; std::vector<Known> knowns;
  static void mkdir_(const std::string& d) { std::string c = "mkdir -p '" + d + "'"; if (system(c.c_str())) {} }
  void rmTmp() { if (tmp.rfind("/tmp/hz-", 0) == 0) { std::string c = "rm -rf '" + tmp + "'"; if (system(c.c_str())) {} } }
  void loadKnown() {
    // lines: property<TAB>case substring<TAB>message substring<TAB>text
    std::ifstream f(knownFile); std::string l;
    while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; if (l.rfind("fixed:", 0) == 0) continue; std::vector<std::string> p; std::stringstream ss(l); std::string x; while (std::getline(ss, x, '\t')) p.push_back(x); if (p.size() >= 4 && p[0] == prop) knowns.push_back({p[1], p[2], p[3]}); }
  }
  int matchKnown(const Violation& v) { for (size_t i = 0; i < knowns.size(); ++i) if (v.caseId.find(knowns[i].caseSub) != std::string::npos && (v.kind + ": " + v.msg).find(knowns[i].msgSub) != std::string::npos) return (int)i; return -1; }
  void quiet() { if (!verbose) { int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); close(d); } }
  void enterScratch(int w) { std::string d = fmt("%s/w%d-%d", tmp.c_str(), w, getpid()); mkdir_(d); if (chdir(d.c_str())) _exit(97); }
  void runCase(long i, int w, std::vector<Violation>& vv, std::unordered_set<uint64_t>& oc, std::vector<std::string>& sm, const std::vector<int>* forced = nullptr, const std::string& label = "") {
    sh->slot[w].since = wall(); snprintf(sh->slot[w].what, sizeof sh->slot[w].what, "%s", cases[i].id.c_str()); sh->slot[w].cur = i;
    Ctx c; c.sh = sh; c.slot = w; c.caseId = cases[i].id; c.viol = &vv; c.outcomes = &oc; c.samples = &sm;
    if (forced) { c.forced = *forced; c.hasForced = true; c.forcedLabel = label; }
    try { cases[i].fn(c); } catch (std::exception& e) { c.report("-", "harness-exception", e.what()); }
    sh->casesDone++; sh->slot[w].cur = -1;
  }
  void worker(int w) {
    quiet(); enterScratch(w);
    std::vector<Violation> vv; std::unordered_set<uint64_t> oc; std::vector<std::string> sm;
    int done = 0; double tw = wall();
    while (!sh->stop && done < 400 && wall() - tw < 20) {
      long i = sh->next++;
      if (i >= (long)cases.size()) break;
      runCase(i, w, vv, oc, sm); ++done;
      if (!vv.empty()) { bool unk = false; for (auto& v : vv) if (matchKnown(v) < 0) unk = true; if (unk && (sh->violations += 1) >= 3) sh->stop = 1; break; }
    }
    flush(w, vv, oc);
    _exit(0);
  }
  void flush(int w, const std::vector<Violation>& vv, const std::unordered_set<uint64_t>& oc) {
    std::string base = fmt("%s/out-%d-%d", tmp.c_str(), w, getpid());
    { std::ofstream o(base + ".oc", std::ios::binary); for (auto x : oc) o.write((char*)&x, 8); }
    std::ofstream o(base + ".vi");
    for (auto& v : vv) { auto one = [](std::string s) { for (auto& c : s) if (c == '\n' || c == '\x1f') c = ' '; return s; }; o << one(v.caseId) << '\x1f' << one(v.label) << '\x1f' << one(v.kind) << '\x1f' << one(v.msg) << '\x1f'; for (int c : v.choices) o << c << ' '; o << "\n"; }
  }
  void collect() {
    std::string l = "ls " + tmp + "/ 2>/dev/null"; FILE* p = popen(l.c_str(), "r"); char b[512]; std::vector<std::string> f; while (fgets(b, sizeof b, p)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); f.push_back(s); } pclose(p);
    for (auto& s : f) {
      if (s.size() > 3 && s.substr(s.size() - 3) == ".oc") { std::ifstream i(tmp + "/" + s, std::ios::binary); uint64_t x; while (i.read((char*)&x, 8)) outcomes.insert(x); }
      if (s.size() > 3 && s.substr(s.size() - 3) == ".vi") { std::ifstream i(tmp + "/" + s); std::string ln; while (std::getline(i, ln)) { std::vector<std::string> q; std::stringstream ss(ln); std::string x; while (std::getline(ss, x, '\x1f')) q.push_back(x); if (q.size() < 4) continue; Violation v{q[0], q[1], q[2], q[3], {}}; if (q.size() > 4) { std::stringstream cs(q[4]); int c; while (cs >> c) v.choices.push_back(c); } viols.push_back(v); } }
    }
    std::sort(viols.begin(), viols.end(), [](const Violation& a, const Violation& b) { return a.caseId < b.caseId; });
  }
  // run a crashed or timed out case again, alone
  void confirm(long i, const std::string& how) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { quiet(); enterScratch(60); std::vector<Violation> vv; std::unordered_set<uint64_t> oc; std::vector<std::string> sm; runCase(i, 60, vv, oc, sm); if (!vv.empty()) flush(60, vv, oc); _exit(vv.empty() ? 0 : 7); }
    double st = wall(); int s; bool to = false;
    for (;;) { pid_t q = waitpid(p, &s, WNOHANG); if (q == p) break; if (wall() - st > 2.0 * caseLimit) { to = true; kill(p, SIGKILL); waitpid(p, &s, 0); break; } usleep(5000); }
    if (!to && WIFEXITED(s) && WEXITSTATUS(s) == 0) { printf("note: case %s did not fail again alone (%s)\n", cases[i].id.c_str(), how.c_str()); return; }
    if (!to && WIFEXITED(s) && WEXITSTATUS(s) == 7) { viols.clear(); collect(); return; }
    std::string what = sh->slot[60].what;
    std::string lab = what.find(" | ") != std::string::npos ? what.substr(what.find(" | ") + 3) : "-";
    viols.push_back({cases[i].id, lab, to ? "hang" : "crash", to ? how : (WIFSIGNALED(s) ? fmt("signal %d (%s)", WTERMSIG(s), strsignal(WTERMSIG(s))) : fmt("exit code %d", WEXITSTATUS(s))), {}});
  }
  void writeEvidence(double wt, int real, int known, bool budgetHit) {
    if (evid.empty()) return;
    std::ofstream o(evid);
    long states = (long)sh->nodes + (long)sh->choicePoints + (long)sh->executions;
    o << "{\"property\":\"" << prop << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"model_checking\",\"wall_s\":" << wt << ",\"violations\":" << real << ",\n\"coverage\":{\"states\":" << states
      << ",\"transitions\":" << (long)sh->transitions << ",\"traces_validated_against_impl\":" << (long)sh->executions << ",\"evaluations\":" << (long)sh->evals << ",\"distinct_nontrivial\":" << (long)sh->nontrivial
      << ",\"configurations\":" << (long)sh->casesDone << ",\"configurations_total\":" << cases.size() << ",\"distinct_outcomes\":" << outcomes.size() << ",\"schedule_caps_hit\":" << (long)sh->capped
      << ",\"exhaustive\":" << ((long)sh->casesDone >= (long)cases.size() && !sh->capped && !budgetHit ? "true" : "false") << ",\"known_findings\":" << known
      << ",\n\"rule\":\"" << jesc(rule) << "\",\"bounds\":\"" << jesc(bounds) << "\",\n\"samples\":[";
    size_t n = cases.size(), k = 0;
    for (size_t i = 0; i < n && k < 12; i += std::max<size_t>(1, n / 12)) o << (k++ ? "," : "") << "\"" << jesc(cases[i].id) << "\"";
    o << "]},\n\"assumptions\":[";
    for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? "," : "") << "\"" << jesc(assumptions[i]) << "\"";
    o << "]}\n";
  }
  int doReplay() {
    std::ifstream f(replay); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    auto get = [&](const std::string& k) { size_t p = s.find("\"" + k + "\":\""); if (p == std::string::npos) return std::string(); p += k.size() + 4; std::string r; while (p < s.size() && s[p] != '"') { if (s[p] == '\\') ++p; r += s[p++]; } return r; };
    std::string cid = get("case"), lab = get("label"); std::vector<int> ch; size_t p = s.find("\"choices\":["); if (p != std::string::npos) { std::stringstream cs(s.substr(p + 11)); int x; char c; while (cs >> x) { ch.push_back(x); cs >> c; if (c == ']') break; } }
    bool useForced = true; std::string kind = get("kind"); if (kind == "crash" || kind == "hang") useForced = false;
    for (size_t i = 0; i < cases.size(); ++i) if (cases[i].id == cid) {
      enterScratch(0); std::vector<Violation> vv; std::unordered_set<uint64_t> oc; std::vector<std::string> sm;
      runCase((long)i, 0, vv, oc, sm, useForced ? &ch : nullptr, lab);
      for (auto& v : vv) printf("replayed: case %s [%s]: %s: %s\n", v.caseId.c_str(), v.label.c_str(), v.kind.c_str(), v.msg.c_str());
      if (vv.empty()) printf("replay: no violation\n");
      if (chdir("/")) {} rmTmp();
      return vv.empty() ? 0 : 1;
    }
    printf("replay: case not found\n"); return 2;
  }
};
}  // namespace hz
