// C12: messages and binary blocks between systems; all fragmentations, close points and malformed lengths of short streams,
// and the broker between two systems under all interleavings within the deviation bound.
#include "common.hpp"
#include "net.hpp"
#include <complex>
#include "third_level/NetworkUtils.hpp"
#include "third_level/ThirdLevelUtils.hpp"
#include "third_level_manager/thirdLevelManager.hpp"
using namespace ref;
namespace cg = combigrid;
namespace {
typedef std::string S;
const bool LITTLE = cg::NetworkUtils::isLittleEndian();
const S NEXT = "12#next message";
// a connected client whose received bytes are `in`
struct Cli {
  cg::ClientSocket s{"remotehost", 9999};
  Cli(const S& in, bool eof = false) { net::listenOn(9999); REQ(s.init(), "cannot connect"); net::End& e = *net::end(s.getFileDescriptor()); e.peer = -1; e.in = in; e.eof = eof; }
  net::End& e() { return *net::end(s.getFileDescriptor()); }
};
S show(const S& s) { S o; for (unsigned char c : s) o += c >= 32 && c < 127 ? S(1, (char)c) : hz::fmt("\\x%02x", c); return o; }
struct Fault { long at; int kind; };
// no fault, or at every byte: orderly end, reset, interruption
vector<Fault> faults(int L) { vector<Fault> f = {{-1, 0}}; for (int i = 0; i < L; ++i) for (int k : {net::CLOSED, net::RESET, net::INTR}) f.push_back({i, k}); return f; }
const char* fname(int k) { return k == net::CLOSED ? "end" : k == net::RESET ? "reset" : k == net::INTR ? "interruption" : "none"; }
template <class T> T element(int i) { T v; unsigned char b[sizeof(T)]; for (size_t j = 0; j < sizeof(T); ++j) b[j] = (unsigned char)(0x11 + 7 * i + 3 * j); memcpy(&v, b, sizeof v); return v; }
template <> std::complex<double> element(int i) { return {element<double>(2 * i), element<double>(2 * i + 1)}; }
template <class T> struct Scalar { typedef T type; };
template <class T> struct Scalar<std::complex<T>> { typedef T type; };
// bytes as a machine of the given byte order would send them
template <class T> S encode(const vector<T>& v, bool little) {
  S o(1, little ? (char)1 : (char)0); const size_t z = sizeof(typename Scalar<T>::type); const char* p = (const char*)v.data();
  for (size_t i = 0; i < v.size() * sizeof(T); i += z) { S one(p + i, z); if (little != LITTLE) one = S(one.rbegin(), one.rend()); o += one; }
  return o;
}
template <class T> T add(const T& a, const T& b) { return a + b; }
// the bits of the first argument survive in no addition: keep the received element recognisable for every type
template <class T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
struct Var { uint64_t mask; Fault f; size_t chunk; size_t limit = 0; };
template <class T> void binary(const vector<T>& data, bool little, int fn, const Var& v) {
  net::reset(); S bytes = encode(data, little);
  Cli c(bytes + NEXT); c.e().rmask = v.mask; c.e().rfail = v.f.at; c.e().rkind = v.f.kind; c.e().rlimit = v.limit;
  vector<T> buf(data.size() + 2, T(42)); bool ok;
  if (fn == 0) ok = c.s.recvallBinaryAndCorrectInPlace(buf.data(), data.size(), v.chunk);
  else ok = c.s.recvallBinaryAndReduceInPlace<T>(buf.data(), data.size(), add<T>, v.chunk);
  S ctx = hz::fmt("%s order, cuts %lx, chunk %ld, %s at byte %ld, %ld bytes per call", little == LITTLE ? "same" : "other", (long)v.mask, (long)v.chunk, fname(v.f.kind), v.f.at, (long)v.limit);
  REQ(ok || v.f.at >= 0, "complete block reported as failure (%s)", ctx.c_str());
  REQ(!ok || v.f.at < 0 || v.f.kind == net::INTR, "broken connection reported as complete block (%s)", ctx.c_str());
  REQ(same(buf[data.size()], T(42)) && same(buf[data.size() + 1], T(42)), "written behind the block (%s)", ctx.c_str());
  REQ(c.e().got <= bytes.size(), "bytes of the next message consumed (%s)", ctx.c_str());
  if (!ok) return;
  REQ(c.e().got == bytes.size(), "only %d of %d bytes consumed (%s)", (int)c.e().got, (int)bytes.size(), ctx.c_str());
  for (size_t i = 0; i < data.size(); ++i) { T want = fn == 0 ? data[i] : add<T>(T(42), data[i]); REQ(same(buf[i], want), "element %d is wrong (%s)", (int)i, ctx.c_str()); }
}
uint64_t sparse(int L, int i) { int n = 0; for (int a = 0; a < L; ++a) for (int b = a; b < L; ++b) if (n++ == i) return (1ul << a) | (1ul << b); return ~0ul; }
int nsparse(int L) { return L * (L + 1) / 2 + 1; }
template <class T> void binaryCases(hz::Harness& h, const char* name, int n, bool all, vector<size_t> chunks, bool fault) {
  for (int fn : {0, 1}) for (bool little : {true, false}) for (size_t ch : chunks) h.add(hz::fmt("binary %s elements=%d %s %s order chunk=%ld cuts=%s%s", name, n, fn ? "reduce" : "receive", little == LITTLE ? "same" : "other", (long)ch, all ? "all" : "two", fault ? " faults" : ""), [=](hz::Ctx& c) {
    auto cnt = std::make_shared<long>(0); vmpi::Options o; auto* C = &c;
    c.check("", o, [=](int) {
      vector<T> d; for (int i = 0; i < n; ++i) d.push_back(element<T>(i));
      int L = n * sizeof(T); uint64_t M = all ? 1ul << (L - 1) : nsparse(L);
      // cuts of the stream behind the byte-order mark, which is requested on its own
      for (uint64_t m = 0; m < M; ++m) { uint64_t mask = (all ? m : sparse(L, (int)m)) << 1; if (!fault) { binary(d, little, fn, Var{mask, {-1, 0}, ch}); ++*cnt; } else for (auto& f : faults(L + 1)) { binary(d, little, fn, Var{mask, f, ch}); ++*cnt; } if (!(m & 4095)) C->progressMark(); }
    });
    c.count(*cnt); c.nontriv();
  });
}
// blocks longer than one chunk, delivered in pieces of every listed size
template <class T> void longCases(hz::Harness& h, const char* name, bool thorough) {
  for (int fn : {0, 1}) for (bool little : {true, false}) for (int n : {255, 256, 1000, 8191, 16384, 16385, 40000}) h.add(hz::fmt("binary %s elements=%d %s %s order, pieces", name, n, fn ? "reduce" : "receive", little == LITTLE ? "same" : "other"), [=](hz::Ctx& c) {
    auto cnt = std::make_shared<long>(0); vmpi::Options o; auto* C = &c;
    c.check("", o, [=](int) {
      vector<T> d; for (int i = 0; i < n; ++i) d.push_back(element<T>(i + i / 251));
      for (size_t ch : {1000ul, 2048ul, 65536ul, 131072ul}) for (size_t lim : {0ul, 7ul, 8ul, 999ul, 1000ul, 1001ul, 4095ul, 4096ul, 65535ul, 65537ul, 131071ul}) { if (lim && !thorough && n * sizeof(T) / lim > 20000) continue; binary(d, little, fn, Var{0, {-1, 0}, ch, lim}); ++*cnt; C->progressMark(); }
      const long L = (long)(n * sizeof(T));
      for (long at : {1l, L / 2, L - 8, L - 1, L}) for (int k : {net::CLOSED, net::RESET, net::INTR}) { binary(d, little, fn, Var{0, {at, k}, 131072, 999}); ++*cnt; }
    });
    c.count(*cnt); c.nontriv();
  });
}
}  // namespace
#include "c12_more.inc"
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C12");
  bool T = h.thorough();
  h.rule = "distinct fragmentation, fault, message content and schedule combinations of the network layer and the broker";
  binaryCases<float>(h, "float", 1, true, {1, 2, 3, 4, 131072}, true);
  binaryCases<float>(h, "float", 2, true, {1, 3, 5, 131072}, true);
  binaryCases<float>(h, "float", 3, true, {3, 6, 131072}, false);
  binaryCases<cg::SubspaceSizeType>(h, "size", 3, true, {5, 131072}, false);
  binaryCases<double>(h, "double", 1, true, {1, 3, 8, 131072}, true);
  binaryCases<double>(h, "double", 2, true, {131072}, false);
  binaryCases<double>(h, "double", 2, true, {5, 11}, false);
  binaryCases<double>(h, "double", 3, false, {1, 8, 9, 131072}, false);
  binaryCases<double>(h, "double", 5, false, {7, 16, 131072}, false);
  binaryCases<double>(h, "double", 2, false, {131072}, true);
  binaryCases<std::complex<double>>(h, "complex", 1, true, {131072}, false);
  binaryCases<std::complex<double>>(h, "complex", 3, false, {16, 131072}, false);
  if (T) { binaryCases<float>(h, "float", 5, true, {131072}, false); binaryCases<double>(h, "double", 2, true, {131072}, true); binaryCases<double>(h, "double", 7, false, {3, 8, 131072}, false); binaryCases<float>(h, "float", 3, true, {131072}, true); }
  longCases<double>(h, "double", T); longCases<float>(h, "float", T); longCases<std::complex<double>>(h, "complex", T);
  moreCases(h, T);
  h.bounds = "binary blocks of up to 3 elements with all fragmentations and up to 7 with all placements of two cuts, float/double/complex/size elements, both byte orders, several chunk sizes, end/reset/interruption at every byte; prefixed messages, forwarding, files and malformed lengths over all fragmentations of streams of up to 14 bytes; broker with two systems: scripts of up to 3 exchanges, all schedules and fragmentations with up to 1 (thorough: 2) deviations, a system breaking off at every byte; long blocks received and sent in pieces of every size up to a few bytes; broker settings from command line and file";
  h.assumptions = {"an interrupted system call may be reported as failure", "blocks and messages have at least one byte"};
  return h.run();
}
