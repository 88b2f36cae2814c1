// C18: statistics files; all short histories of events, attributes, partial and final writes on 1..4 ranks.
#include <filesystem>
#include "common.hpp"
#include "io/FileInputOutput.hpp"
#include "utils/Stats.hpp"
using namespace ref;
namespace cg = combigrid;
namespace {
typedef std::string str;
// strict JSON: objects, arrays of numbers, strings
struct J { char t = 0; str s; double v = 0; vector<std::pair<str, J>> o; vector<J> a; const J* get(const str& k) const { for (auto& x : o) if (x.first == k) return &x.second; return nullptr; } };
struct Parser {
  const str& s; size_t p = 0; const char* what;
  [[noreturn]] void bad(const char* m) { vmpi::fail("property", hz::fmt("%s is not valid JSON at byte %d of %d (%s)", what, (int)p, (int)s.size(), m)); abort(); }
  void ws() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) ++p; }
  char peek() { ws(); return p < s.size() ? s[p] : '\0'; }
  str string_() { if (peek() != '"') bad("string expected"); ++p; str r; while (p < s.size() && s[p] != '"') {
    if ((unsigned char)s[p] < 32) bad("character in a string"); if (s[p] != '\\') { r += s[p++]; continue; }
    char e = ++p < s.size() ? s[p] : '\0'; const char *from = "\"\\/bfnrt", *to = "\"\\/\b\f\n\r\t", *q = e ? strchr(from, e) : nullptr; if (q) { r += to[q - from]; ++p; continue; }
    if (e != 'u' || p + 4 >= s.size()) bad("escape in a string"); unsigned v = 0; for (int i = 1; i <= 4; ++i) { if (!isxdigit((unsigned char)s[p + i])) bad("escape in a string"); v = v * 16 + (isdigit((unsigned char)s[p + i]) ? s[p + i] - '0' : tolower(s[p + i]) - 'a' + 10); } p += 5;
    if (v < 128) r += (char)v; else if (v < 2048) { r += (char)(192 | v >> 6); r += (char)(128 | (v & 63)); } else { r += (char)(224 | v >> 12); r += (char)(128 | (v >> 6 & 63)); r += (char)(128 | (v & 63)); } } if (p >= s.size()) bad("open string"); ++p; return r; }
  J value() {
    J j; char c = peek();
    if (c == '{') { j.t = 'o'; ++p; if (peek() == '}') { ++p; return j; } for (;;) { str k = string_(); if (j.get(k)) bad(("key twice: " + k).c_str()); if (peek() != ':') bad("':' expected"); ++p; j.o.push_back({k, value()}); c = peek(); ++p; if (c == '}') return j; if (c != ',') { --p; bad("',' or '}' expected"); } } }
    if (c == '[') { j.t = 'a'; ++p; if (peek() == ']') { ++p; return j; } for (;;) { j.a.push_back(value()); c = peek(); ++p; if (c == ']') return j; if (c != ',') { --p; bad("',' or ']' expected"); } } }
    if (c == '"') { j.t = 's'; j.s = string_(); return j; }
    if (c == '-' || (c >= '0' && c <= '9')) { char* e; j.t = 'n'; j.v = strtod(s.c_str() + p, &e); if (e == s.c_str() + p) bad("number"); p = e - s.c_str(); return j; }
    bad("value expected");
  }
  J all() { J j = value(); if (peek() || p < s.size()) bad("text after the end"); return j; }
};
double now() { return std::chrono::duration<double, std::micro>(std::chrono::high_resolution_clock::now().time_since_epoch()).count(); }
void burn() { for (int i = 0; i < 6; ++i) now(); }
struct Ev { str name; double s0, s1, e0 = 0, e1 = 0; bool done = false, written = false; };
struct Rank { double i0 = 0, i1 = 0; vector<Ev> ev; std::map<str, str> attr; int writes = 0; };
struct Shared { vector<Rank> r; long cmp = 0; };
str slurp(const str& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
str evName(char c, int k) { if (c == 'd') return "a \"quoted\" \\name\\\t\x01"; return c == 'a' ? str("a") : c == 'b' ? str("combine b") : str("c_") + str(40 + 10 * k, 'z'); }
void letter(char c, int rank, Rank& m, int& ctr) {
  ++ctr; burn();
  if (c == 'q') { static const char* vs[] = {"\"", "\\", "C:\\out\\u0041", "line 1\nline 2", "a\":\"b", "\r\t\b\f\x1f", "{\"x\": [1, 2]}", "gr\xc3\xb6\xc3\x9f" "er \xe2\x82\xac /", "\\\"", ""}; str k = ctr % 3 ? "command line" : "with \"quotes\"\\", v = vs[(rank * 7 + ctr) % 10]; cg::Stats::setAttribute(k, v); m.attr[k] = v; burn(); return; }
  if (c == 'x' || c == 'y') { str k = c == 'x' ? "group" : "level of y", v = hz::fmt("%d_%d", rank, ctr) + str(c == 'y' ? ctr % 3 : 0, '.'); cg::Stats::setAttribute(k, v); m.attr[k] = v; burn(); return; }
  str n = evName(c, 1); Ev* open = nullptr; for (auto& e : m.ev) if (e.name == n && !e.done) open = &e;
  if (!open) { double t = now(); cg::Stats::startEvent(n); m.ev.push_back({n, t, now()}); }
  else {
    double t = now(); auto e = cg::Stats::stopEvent(n); open->e0 = t; open->e1 = now(); open->done = true;
    double us = cg::Stats::getEventDurationInUsec(e), lo = open->e0 - open->s1, hi = open->e1 - open->s0;
    REQ(us >= lo - 1.5 && us <= hi + 1.5, "stopEvent: duration of %g us, the event took between %g and %g", us, lo, hi);
    double ms = cg::Stats::getEventDuration(e); REQ(std::abs(ms - std::floor(us / 1000)) < 1.5, "duration in ms is %g for %g us", ms, us);
    REQ(cg::Stats::getDuration(n) == cg::Stats::getEventDuration(e), "getDuration differs from the stopped event");
    auto& g = cg::Stats::getEvent(n); REQ(g.start == e.start && g.end == e.end, "getEvent is not the event stopped last");
  }
  burn();
}
// file of the ranks `who` (in the order of the communicator): partial or final
void verify(const str& f, Shared& S, const vector<int>& who, bool partial) {
  REQ(std::filesystem::exists(f), "%s was not written", f.c_str());
  str txt = slurp(f); Parser p{txt, 0, f.c_str()}; J j = p.all();
  REQ(j.t == 'o', "%s is no object", f.c_str()); REQ(j.o.size() == who.size(), "%s has %d entries for %d ranks", f.c_str(), (int)j.o.size(), (int)who.size());
  for (size_t q = 0; q < who.size(); ++q) {
    Rank& m = S.r[who[q]]; str rn = "rank" + std::to_string(q); const J* jr = j.get(rn); REQ(jr && jr->t == 'o', "%s: no %s", f.c_str(), rn.c_str());
    const J* at = jr->get("attributes"); const J* ev = jr->get("events"); REQ(at && ev && at->t == 'o' && ev->t == 'o', "%s: %s lacks attributes or events", f.c_str(), rn.c_str());
    REQ(at->o.size() == m.attr.size(), "%s: %d attributes of %s instead of %d", f.c_str(), (int)at->o.size(), rn.c_str(), (int)m.attr.size());
    for (auto& x : m.attr) { const J* v = at->get(x.first); REQ(v && v->t == 's' && v->s == x.second, "%s: attribute %s of %s is '%s', set to '%s'", f.c_str(), x.first.c_str(), rn.c_str(), v ? v->s.c_str() : "missing", x.second.c_str()); ++S.cmp; }
    vector<int> hit(m.ev.size(), 0);
    for (auto& g : ev->o) for (auto& t : g.second.a) {
      REQ(t.t == 'a' && t.a.size() == 2, "%s: entry of event %s has not two times", f.c_str(), g.first.c_str());
      int k = -1;
      for (size_t i = 0; i < m.ev.size(); ++i) { auto& e = m.ev[i]; if (e.name == g.first && t.a[0].v >= e.s0 - m.i1 - 1.5 && t.a[0].v <= e.s1 - m.i0 + 1.5) k = (int)i; }
      REQ(k >= 0, "%s: %s event %s [%.0f,%.0f] was never started then", f.c_str(), rn.c_str(), g.first.c_str(), t.a[0].v, t.a[1].v);
      auto& e = m.ev[k]; ++hit[k]; ++S.cmp;
      if (e.done) REQ(t.a[1].v >= e.e0 - m.i1 - 1.5 && t.a[1].v <= e.e1 - m.i0 + 1.5, "%s: %s event %s ends at %.0f us, was stopped between %.0f and %.0f", f.c_str(), rn.c_str(), g.first.c_str(), t.a[1].v, e.e0 - m.i1, e.e1 - m.i0);
    }
    for (size_t i = 0; i < m.ev.size(); ++i) {
      auto& e = m.ev[i]; int want = e.done && !(partial && e.written);
      if (e.done) REQ(hit[i] == want, "%s: event %d (%s) of %s is listed %d times instead of %d", f.c_str(), (int)i, e.name.c_str(), rn.c_str(), hit[i], want);
      else REQ(hit[i] <= (partial ? 0 : 1), "%s: unfinished event %d (%s) of %s is listed %d times", f.c_str(), (int)i, e.name.c_str(), rn.c_str(), hit[i]);
      if (partial && e.done) e.written = true;
      ++S.cmp;
    }
    ++m.writes;
  }
}
// comm kinds: 0 world, 1 parity, 2 self, 3 reversed world
struct Comm { MPI_Comm c; vector<int> who; str tag; };
Comm mkComm(int kind, int r, int n) {
  Comm k; if (kind == 0) { k.c = MPI_COMM_WORLD; for (int i = 0; i < n; ++i) k.who.push_back(i); k.tag = "w"; }
  else if (kind == 1) { MPI_Comm_split(MPI_COMM_WORLD, r % 2, r, &k.c); for (int i = r % 2; i < n; i += 2) k.who.push_back(i); k.tag = r % 2 ? "odd" : "even"; }
  else if (kind == 2) { MPI_Comm_split(MPI_COMM_WORLD, r, 0, &k.c); k.who = {r}; k.tag = "self" + std::to_string(r); }
  else { MPI_Comm_split(MPI_COMM_WORLD, 0, -r, &k.c); for (int i = n; i--;) k.who.push_back(i); k.tag = "rev"; }
  return k;
}
void session(Shared& S, int r, const vector<str>& segs, const Comm& k, const str& name, int& ctr) {
  Rank& m = S.r[r]; m = Rank(); burn(); m.i0 = now(); cg::Stats::initialize(); m.i1 = now(); burn();
  REQ(cg::Stats::isInitialized(), "not initialized"); REQ(cg::Stats::getDuration("never") == std::numeric_limits<long unsigned int>::max(), "duration of an event that never was");
  for (size_t i = 0; i < segs.size(); ++i) {
    for (char c : segs[i]) letter(c, r, m, ctr);
    if (i + 1 < segs.size()) {
      cg::Stats::writePartial(name, k.c); MPI_Barrier(k.c);
      int cr; MPI_Comm_rank(k.c, &cr); if (cr == 0) { str f = std::to_string(m.writes) + "_" + name; verify(f, S, k.who, true); std::filesystem::remove(f); }
      MPI_Barrier(k.c);
    }
  }
  cg::Stats::finalize(); REQ(!cg::Stats::isInitialized(), "still initialized after finalize");
  cg::Stats::write(name, k.c); MPI_Barrier(k.c);
  int cr; MPI_Comm_rank(k.c, &cr); if (cr == 0) verify(name, S, k.who, false);
  MPI_Barrier(k.c);
}
vector<str> words(const str& al, int len) { vector<str> o{""}; size_t a = 0; for (int i = 0; i < len; ++i) { size_t e = o.size(); for (; a < e; ++a) for (char c : al) o.push_back(o[a] + c); a = e; } return o; }
vector<str> cut(const str& w) { vector<str> s{""}; for (char c : w) if (c == 'P') s.push_back(""); else s.back() += c; return s; }
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C18"); bool T = h.thorough();
  auto clean = [] { for (auto& e : std::filesystem::directory_iterator(".")) { auto n = e.path().filename().string(); if (n.find(".st") != str::npos) std::filesystem::remove(e.path()); } };
  auto runOne = [=](hz::Ctx& c, const str& label, vmpi::Options o, const vector<vector<vector<str>>>& prog, int kind) {   // prog[session][rank] = segments
    auto S = std::make_shared<Shared>(); S->r.resize(o.nranks); clean();
    c.check(label, o, [=](int r) { if (r == 0) for (auto& x : S->r) x = Rank(); MPI_Barrier(MPI_COMM_WORLD); Comm k = mkComm(kind, r, o.nranks); int ctr = 0; for (auto& s : prog) session(*S, r, s[r], k, k.tag + ".st", ctr); if (kind) MPI_Comm_free(&k.c); });
    c.count(S->cmp); c.nontriv(); c.progressMark();
  };
  // one rank: all words
  int L1 = T ? 8 : 6;
  for (char f : str("abxyP")) for (char g : str("abxyP")) h.add(hz::fmt("one rank, words %c%c*", f, g), [=](hz::Ctx& c) {
    for (auto& w : words("abxyP", L1 - 2)) { vmpi::Options o; o.nranks = 1; str v = str(1, f) + g + w; runOne(c, v, o, {{cut(v)}}, 0); if (c.failed) return; }
  });
  // two ranks: all pairs of two segments each, all communicators
  auto W2 = words("abx", 2);
  for (size_t i = 0; i < W2.size(); ++i) for (int kind = 0; kind < 4; ++kind) h.add(hz::fmt("two ranks, first segment %s, comm %d", W2[i].c_str(), kind), [=](hz::Ctx& c) {
    for (auto& b : W2) for (auto& d : W2) for (auto& e : W2) { vmpi::Options o; o.nranks = 2; o.syncColl = kind == 0; o.reverseSched = kind == 3; runOne(c, "|" + b + "|" + d + "|" + e, o, {{{W2[i], b}, {d, e}}}, kind); if (c.failed) return; if (!T && kind && b != d) break; }
  });
  // several ranks, several segments: the words of all ranks rotate through the list
  for (int n = 3; n <= 4; ++n) for (int kind = 0; kind < 4; ++kind) for (int seg = 1; seg <= 3; ++seg) h.add(hz::fmt("%d ranks, %d segments, comm %d", n, seg, kind), [=](hz::Ctx& c) {
    auto W = words("abcx", T ? 3 : 2);
    for (size_t i = 0; i < W.size(); ++i) for (size_t st = 1; st <= 5; ++st) { vmpi::Options o; o.nranks = n; o.reverseSched = st % 2; vector<vector<str>> p(n); for (int r = 0; r < n; ++r) for (int s = 0; s < seg; ++s) p[r].push_back(W[(i + st * r + 7 * s) % W.size()]); runOne(c, hz::fmt("i=%d st=%d", (int)i, (int)st), o, {p}, kind); if (c.failed) return; }
  });
  // sessions one after the other, the same file names
  for (int n = 1; n <= 2; ++n) h.add(hz::fmt("two sessions, %d ranks", n), [=](hz::Ctx& c) {
    auto W = words("abxP", T ? 4 : 3);
    for (size_t i = 0; i < W.size(); ++i) for (size_t j = 0; j < W.size(); ++j) { if (!T && (i * 7 + j) % 3) continue; vmpi::Options o; o.nranks = n; auto a = cut(W[i]), b = cut(W[j]); vector<vector<vector<str>>> p{vector<vector<str>>(n, a), vector<vector<str>>(n, b)}; if (n == 2) { for (auto& s : p[0][1]) s += "b"; for (auto& s : p[1][1]) s = "x" + s; } runOne(c, W[i] + ";" + W[j], o, p, 0); if (c.failed) return; }
  });
  // names and values that have to be escaped
  for (int n = 1; n <= 3; ++n) for (int kind = 0; kind < 4; ++kind) h.add(hz::fmt("special characters, %d ranks, comm %d", n, kind), [=](hz::Ctx& c) {
    auto W = words("adqP", T ? 5 : 4); for (size_t i = 0; i < W.size(); ++i) { if (!T && kind && i % 3) continue; vmpi::Options o; o.nranks = n; vector<vector<str>> p(n, cut(W[i])); for (int r = 1; r < n; ++r) p[r][0] += r == 1 ? "qdq" : "qqqd"; runOne(c, W[i], o, {p}, kind); if (c.failed) return; }
  });
  // schedules
  for (int n = 2; n <= 3; ++n) for (int kind = 0; kind < 4; ++kind) h.add(hz::fmt("schedules, %d ranks, comm %d", n, kind), [=](hz::Ctx& c) {
    vmpi::Options o; o.nranks = n; o.schedChoice = true; o.bound = T ? 3 : 2; o.preemptAt = vmpi::PT_FILE | vmpi::PT_COLL; o.maxExec = T ? 200000 : 20000; vector<vector<str>> p(n); for (int r = 0; r < n; ++r) p[r] = {r ? "ax" : "aab", r ? "aab" : "bx"};
    runOne(c, "aab/bx", o, {p}, kind);
  });
  // many and long entries
  for (int n = 1; n <= 4; ++n) h.add(hz::fmt("long, %d ranks", n), [=](hz::Ctx& c) {
    for (int m : {40, 500, 3000}) for (int w = 0; w < n; ++w) { vmpi::Options o; o.nranks = n; vector<vector<str>> p(n); for (int r = 0; r < n; ++r) { str s; int len = r == w ? m : 3; for (int i = 0; i < len; ++i) s += "abcxy"[(i * i + i / 3 + r) % 5]; p[r] = {s, s, "x"}; } runOne(c, hz::fmt("%d events on rank %d", m, w), o, {p}, 0); if (c.failed) return; }
  });
  for (int n : {9, 16}) h.add(hz::fmt("many ranks, %d", n), [=](hz::Ctx& c) {
    for (int kind = 0; kind < 4; ++kind) { vmpi::Options o; o.nranks = n; vector<vector<str>> p(n); for (int r = 0; r < n; ++r) { str s; for (int i = 0; i < 1 + r * 9; ++i) s += "abcxy"[(i * i + i / 3 + r) % 5]; p[r] = {s, r % 2 ? "ab" : "x", s}; } runOne(c, hz::fmt("comm %d", kind), o, {p}, kind); if (c.failed) return; }
  });
  // concatenated files: every size of the parts, any bytes, over older files
  for (int n = 1; n <= 4; ++n) h.add(hz::fmt("concatenate, %d ranks", n), [=](hz::Ctx& c) {
    int mx = n <= 2 ? 6 : n == 3 ? 4 : 3;
    for (auto& sz : cube(n, 0, mx)) for (int old : {-1, 0, 3, 40}) for (int rep = 0; rep < 2; ++rep) for (int big : {1, 5000}) {
      if (!rep && old >= 0) continue; if (big > 1 && prod(sz) % 2 && !T) continue;
      vmpi::Options o; o.nranks = n; auto cmp = std::make_shared<long>(0);
      c.check(hz::fmt("sizes %s x %d, old file %d, replace %d", hz::vs(sz).c_str(), big, old, rep), o, [=](int r) {
        str f = "cat.st"; if (r == 0) { std::filesystem::remove(f); if (old >= 0) std::ofstream(f) << str(old * big, '#'); } MPI_Barrier(MPI_COMM_WORLD);
        auto part = [&](int q) { str s; for (int i = 0; i < sz[q] * big; ++i) s += char((q * 97 + i * 31) % 256); return s; };
        str d = part(r); cg::writeConcatenatedFileRootOnly(d.data(), d.size(), f, MPI_COMM_WORLD, rep); MPI_Barrier(MPI_COMM_WORLD);
        bool ex = cg::getFileExistsRootOnly(f, MPI_COMM_WORLD, n - 1); REQ(ex, "the file does not exist on some rank"); bool no = cg::getFileExistsRootOnly(f + "x", MPI_COMM_WORLD); REQ(!no, "a missing file exists on some rank");
        if (r == 0) { str e; for (int q = 0; q < n; ++q) e += part(q); str g = slurp(f); REQ(g == e, "the file has %d bytes, the parts have %d, or they differ", (int)g.size(), (int)e.size()); ++*cmp; }
        MPI_Barrier(MPI_COMM_WORLD);
      });
      if (c.failed) return; c.count(*cmp); c.nontriv(); c.progressMark(); }
  });
  h.rule = "every file written is valid JSON with one entry per rank of the communicator; each has all attributes with their last value; a partial file has exactly the events stopped since the previous one, the final file all, with the measured times";
  h.bounds = hz::fmt("one rank: all words of up to %d starts/stops, attributes and partial writes; two ranks: all pairs of two-segment histories; three and four ranks: rotating words; four kinds of communicators; two sessions; 9 and 16 ranks; 3000 events; all schedules of small histories up to bound %d", L1, T ? 3 : 2);
  h.assumptions = {"the clock advances between two readings", "an event is started before it is stopped and not started twice at a time", "TIMING is on, as in the build"};
  return h.run();
}
