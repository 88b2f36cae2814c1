// C08: files hold exactly what was written and are read back bit for bit for every distribution over ranks;
// all truncations, extensions and wrong distributions are reported.
#include "canary.hpp"
#include <complex>
#include <dirent.h>
#include <sys/stat.h>
#include "combi.hpp"
#include "io/FileInputOutput.hpp"
#include "io/MPICompression.hpp"
#include "io/MPIInputOutput.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"
using namespace ref;
int errorCalc_main(int argc, char** argv);
namespace {
typedef std::complex<double> cd;
template <class T> T value(long i) { return (T)(i % 7 == 3 ? 0 : i * 2654435761u + 17); }
template <> double value<double>(long i) { static const double sp[] = {-0.0, 1. / 3, 5e-324, -1.7976931348623157e308, 1e-17, 2.5, 0.0, -1e300}; return i % 11 < 8 ? sp[i % 11] * (i < 11 ? 1 : (1.0 + 1.0 / i)) : std::ldexp(1.0 / (i + 3), (int)(i % 60) - 30); }
template <> float value<float>(long i) { return (float)value<double>(i + 2) * (i % 2 ? -0.3f : 1e-20f); }
template <> cd value<cd>(long i) { return {value<double>(2 * i + 1), -value<double>(i + 5)}; }
// random-looking or constant bytes for large blocks
template <class T> T noise(long i, int mode) { T t{}; uint64_t x = 0; unsigned char* p = (unsigned char*)&t; for (size_t k = 0; k < sizeof(T); ++k) { if (k % 8 == 0) { x = (uint64_t)(i * 2 + k / 8 + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; } p[k] = mode == 0 ? (unsigned char)(x >> (8 * (k % 8))) : mode == 1 ? 0 : (i % 1000 < 500 ? 0 : (unsigned char)(x >> (8 * (k % 8)))); } 
  if (sizeof(T) >= 8 && mode != 1) for (size_t k = 7; k < sizeof(T); k += 8) p[k] = 0x3F;   // finite doubles
  return t; }
template <> float noise<float>(long i, int mode) { return mode == 1 ? 0.f : mode == 2 && i % 1000 < 500 ? 1.f : (float)((i * 2654435761u) & 0xffffff) / 3; }
template <class T> std::string bytes(const T* v, size_t n) { return std::string((const char*)v, n * sizeof(T)); }
template <class T> std::string fileOf(long total) { std::string s; for (long i = 0; i < total; ++i) { T t = value<T>(i); s += bytes(&t, 1); } return s; }
std::string slurp(const std::string& f, bool* there = nullptr) { std::ifstream i(f, std::ios::binary); if (there) *there = bool(i); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
void put(const std::string& f, const std::string& s) { unlink(f.c_str()); std::ofstream o(f, std::ios::binary); o << s; }
long sum(const IV& v) { long s = 0; for (int x : v) s += x; return s; }
long before(const IV& v, int r) { long s = 0; for (int i = 0; i < r; ++i) s += v[i]; return s; }
// all ways to distribute `total` values over m ranks
vector<IV> comps(long total, int m) { vector<IV> out; IV c; std::function<void(long)> rec = [&](long left) { if ((int)c.size() == m - 1) { c.push_back((int)left); out.push_back(c); c.pop_back(); return; } for (long k = 0; k <= left; ++k) { c.push_back((int)k); rec(left - k); c.pop_back(); } }; rec(total); return out; }
struct Comms { vector<MPI_Comm> c; int n; Comms(int n_) : n(n_) { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); for (int m = 1; m <= n; ++m) { MPI_Comm x; MPI_Comm_split(MPI_COMM_WORLD, r < m ? 0 : MPI_UNDEFINED, r, &x); c.push_back(x); } } ~Comms() { for (auto& x : c) if (x != MPI_COMM_NULL) MPI_Comm_free(&x); } };
template <class T> void expectValues(const vector<T>& got, long first, const char* what, const IV& w, const IV& r, int rank, long extra = 0) {
  for (size_t i = 0; i < got.size(); ++i) { T e = value<T>(first + (long)i); REQ(memcmp(&got[i], &e, sizeof(T)) == 0, "%s: value %ld read back differs (written with distribution %s, read with %s, rank %d)", what, first + (long)i, hz::vs(w).c_str(), hz::vs(r).c_str(), rank); }
}
#define GUARD(what, w, r) REQ(canary::intact(), "%s wrote outside of its buffers (written with distribution %s, read with %s)", what, hz::vs(w).c_str(), hz::vs(r).c_str())
cg::SparseGridWorker<double>& sgw(Worker& w) { return const_cast<cg::SparseGridWorker<double>&>(static_cast<const Worker&>(w).getSparseGridWorker()); }
template <class T> bool biteq(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }

// uncompressed: one writer distribution, every reader distribution on 1..nmax ranks, every buffer length
template <class T> void plainCase(hz::Ctx& c, const std::string& ty, const IV& w, int nmax) {
  long total = sum(w); std::string want = fileOf<T>(total);
  vmpi::Options o; o.nranks = std::max<int>(nmax, (int)w.size()); hz::Ctx* cp = &c;
  c.check("type " + ty + " distribution " + hz::vs(w), o, [=](int rank) {
    canary::mark(); Comms C(o.nranks); std::string f = "v.raw";
    auto write = [&](const IV& d, const std::string& name, bool replace, bool coll, long shift) {
      MPI_Comm cm = C.c[d.size() - 1]; if (cm == MPI_COMM_NULL) return;
      vector<T> v; for (int i = 0; i < d[rank]; ++i) v.push_back(value<T>(shift + before(d, rank) + i));
      int n = cg::mpiio::writeValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), name, cm, replace, coll);
      REQ(n == d[rank], "writing %d values returned %d", d[rank], n);
      MPI_Barrier(cm);
    };
    if (rank == 0) unlink(f.c_str());
    MPI_Barrier(MPI_COMM_WORLD);
    for (int mode = 0; mode < 4; ++mode) {   // new file; replacing a longer file; collective buffering; writing over a longer file
      if (mode % 2 == 1 && rank == 0) put(f, want + "trailing bytes of an older, longer file");
      if (mode == 2 && rank == 0) unlink(f.c_str());
      MPI_Barrier(MPI_COMM_WORLD);
      write(w, f, mode == 1, mode == 2, 0);
      MPI_Barrier(MPI_COMM_WORLD);
      if (rank == 0) REQ(slurp(f) == want, "file written with distribution %s does not hold the values in rank order (mode %d)", hz::vs(w).c_str(), mode);
      MPI_Barrier(MPI_COMM_WORLD);
    }
    for (int m = 1; m <= nmax; ++m) if (MPI_Comm cm = C.c[m - 1]; cm != MPI_COMM_NULL) for (auto& r : comps(total, m)) {
      long first = before(r, rank);
      for (int coll = 0; coll < 2; ++coll) {
        vector<T> v(r[rank]);
        int n = cg::mpiio::readValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), f, cm, coll);
        REQ(n == r[rank], "reading %d values returned %d", r[rank], n);
        expectValues(v, first, "read", w, r, rank); cp->count((long)v.size()); GUARD("reading", w, r);
      }
      for (int buf = 1; buf <= total + 1; ++buf) {
        vector<T> v(r[rank]), e(r[rank]); for (size_t i = 0; i < v.size(); ++i) { v[i] = value<T>(1000 + (long)i); e[i] = v[i] + value<T>(first + (long)i); }
        int n = cg::mpiio::readReduceValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), f, cm, buf, std::plus<T>{});
        REQ(n == r[rank], "reading and reducing %d values returned %d", r[rank], n);
        for (size_t i = 0; i < v.size(); ++i) REQ(biteq(v[i], e[i]), "reading with reduction does not add the stored value once (written with %s, read with %s, buffer of %d)", hz::vs(w).c_str(), hz::vs(r).c_str(), buf);
        cp->count((long)v.size()); GUARD("reading with reduction", w, r);
      }
    }
    // two files at once
    if (rank == 0) unlink("v2.raw");
    MPI_Barrier(MPI_COMM_WORLD); write(w, "v2.raw", false, false, 50); MPI_Barrier(MPI_COMM_WORLD);
    for (int m = 1; m <= nmax; ++m) if (MPI_Comm cm = C.c[m - 1]; cm != MPI_COMM_NULL) for (auto& r : comps(total, m)) for (int buf = 1; buf <= total + 1; buf += (total > 4 ? 2 : 1)) {
      long first = before(r, rank);
      vector<T> v(r[rank]), e(r[rank]); for (size_t i = 0; i < v.size(); ++i) { v[i] = value<T>(1000 + (long)i); e[i] = value<T>(first + (long)i) + (T)(v[i] + value<T>(50 + first + (long)i)); }
      int n = cg::mpiio::readMultipleReduceValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), {f, "v2.raw"}, cm, buf, [](T a, T b, T d) { return a + (T)(b + d); });
      REQ(n == r[rank], "reading and reducing %d values from two files returned %d", r[rank], n);
      for (size_t i = 0; i < v.size(); ++i) REQ(biteq(v[i], e[i]), "reading two files with reduction gives a wrong value (written with %s, read with %s, buffer of %d)", hz::vs(w).c_str(), hz::vs(r).c_str(), buf);
      cp->count((long)v.size()); GUARD("reading two files", w, r);
    }
  });
  c.nontriv();
}
// uncompressed, many ranks: read back with the same, the reversed and an even distribution
template <class T> void manyCase(hz::Ctx& c, const std::string& ty, const IV& w) {
  long total = sum(w); std::string want = fileOf<T>(total); const int m = (int)w.size(); vmpi::Options o; o.nranks = m; c.count(4 * total);
  c.check("many ranks, type " + ty + " distribution " + hz::vs(w), o, [=](int rank) {
    canary::mark(); std::string f = "m.raw"; if (rank == 0) unlink(f.c_str()); MPI_Barrier(MPI_COMM_WORLD);
    vector<T> v; for (int i = 0; i < w[rank]; ++i) v.push_back(value<T>(before(w, rank) + i));
    REQ(cg::mpiio::writeValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), f, MPI_COMM_WORLD) == w[rank], "number of written values");
    MPI_Barrier(MPI_COMM_WORLD); if (rank == 0) REQ(slurp(f) == want, "file written with distribution %s does not hold the values in rank order", hz::vs(w).c_str()); MPI_Barrier(MPI_COMM_WORLD);
    IV rev(w.rbegin(), w.rend()), even; for (int r = 0; r < m; ++r) even.push_back((int)((r + 1) * total / m - r * total / m));
    for (auto& d : {w, rev, even}) for (int buf : {0, 1, 3, 100}) {
      vector<T> g(d[rank]), e(d[rank]); long first = before(d, rank); for (size_t i = 0; i < g.size(); ++i) { g[i] = value<T>(1000 + (long)i); e[i] = buf ? (T)(g[i] + value<T>(first + (long)i)) : value<T>(first + (long)i); }
      int n = buf ? cg::mpiio::readReduceValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), f, MPI_COMM_WORLD, buf, std::plus<T>{}) : cg::mpiio::readValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), f, MPI_COMM_WORLD);
      REQ(n == d[rank], "reading %d values returned %d", d[rank], n); for (size_t i = 0; i < g.size(); ++i) REQ(biteq(g[i], e[i]), "value %ld read back differs (written with %s, read with %s, buffer %d)", first + (long)i, hz::vs(w).c_str(), hz::vs(d).c_str(), buf); GUARD("reading", w, d);
    }
    MPI_Barrier(MPI_COMM_WORLD);
  });
  c.nontriv();
}
template <class T> void compressedCase(hz::Ctx& c, const std::string& ty, const IV& w) {
  c.count(6 * sum(w));
  vmpi::Options o; o.nranks = (int)w.size();
  c.check("compressed type " + ty + " distribution " + hz::vs(w), o, [=](int rank) {
    canary::mark(); std::string f = "c.lz4";
    for (int round = 0; round < 3; ++round) {   // the second round replaces a longer file, the third writes over one
      if (rank == 0) { if (round) put(f, std::string(100000, 'x')); else unlink(f.c_str()); }
      MPI_Barrier(MPI_COMM_WORLD);
      vector<T> v; for (int i = 0; i < w[rank]; ++i) v.push_back(value<T>(before(w, rank) + i));
      cg::mpiio::writeCompressedValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), f, MPI_COMM_WORLD, round == 1);
      MPI_Barrier(MPI_COMM_WORLD);
      vector<T> g(w[rank]);
      int n = cg::mpiio::readCompressedValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), f, MPI_COMM_WORLD);
      REQ(n == w[rank], "reading %d compressed values returned %d", w[rank], n);
      expectValues(g, before(w, rank), "read of a compressed file", w, w, rank); GUARD("reading a compressed file", w, w);
      vector<T> e(w[rank]); for (size_t i = 0; i < g.size(); ++i) { g[i] = value<T>(1000 + (long)i); e[i] = value<T>(before(w, rank) + (long)i) + g[i]; }
      n = cg::mpiio::readReduceCompressedValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), f, MPI_COMM_WORLD, std::plus<T>{});
      REQ(n == w[rank], "reading and reducing %d compressed values returned %d", w[rank], n);
      for (size_t i = 0; i < g.size(); ++i) REQ(biteq(g[i], e[i]), "reading a compressed file with reduction does not add the stored value once (distribution %s, rank %d, value %d)", hz::vs(w).c_str(), rank, (int)i);
      GUARD("reading a compressed file with reduction", w, w);
      MPI_Barrier(MPI_COMM_WORLD);
    }
  });
  c.nontriv();
}
template <class T> void bigCase(hz::Ctx& c, const std::string& ty, const vector<long>& w, int mode, bool compressed) {
  vmpi::Options o; o.nranks = (int)w.size();
  std::string l = hz::fmt("%s%s, %d ranks, first holds %ld values, data %d", compressed ? "compressed " : "", ty.c_str(), (int)w.size(), w[0], mode);
  c.check(l, o, [=](int rank) {
    canary::mark(); std::string f = "big"; if (rank == 0) unlink(f.c_str());
    MPI_Barrier(MPI_COMM_WORLD);
    long at = 0; for (int i = 0; i < rank; ++i) at += w[i];
    vector<T> v(w[rank]); for (size_t i = 0; i < v.size(); ++i) v[i] = noise<T>(at + (long)i, mode);
    if (compressed) cg::mpiio::writeCompressedValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), f, MPI_COMM_WORLD, true);
    else cg::mpiio::writeValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), f, MPI_COMM_WORLD, true);
    MPI_Barrier(MPI_COMM_WORLD);
    vector<T> g(w[rank]);
    int n = compressed ? cg::mpiio::readCompressedValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), f, MPI_COMM_WORLD) : cg::mpiio::readValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), f, MPI_COMM_WORLD);
    REQ(n == (int)w[rank] && bytes(g.data(), g.size()) == bytes(v.data(), v.size()), "values read back differ from those written (rank %d, %d of %ld values)", rank, n, w[rank]);
    REQ(canary::intact(), "reading wrote outside of its buffers");
    vector<T> e(w[rank]); for (size_t i = 0; i < g.size(); ++i) { g[i] = (T)((double)(i % 3) + 1); e[i] = v[i] + g[i]; }
    if (compressed) n = cg::mpiio::readReduceCompressedValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), f, MPI_COMM_WORLD, std::plus<T>{});
    else n = cg::mpiio::readReduceValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), f, MPI_COMM_WORLD, 131072, std::plus<T>{});
    REQ(n == (int)w[rank] && bytes(g.data(), g.size()) == bytes(e.data(), e.size()), "reading with reduction does not add the stored values once (rank %d, %d of %ld values)", rank, n, w[rank]);
    REQ(canary::intact(), "reading with reduction wrote outside of its buffers");
    MPI_Barrier(MPI_COMM_WORLD); if (rank == 0) unlink(f.c_str());
  });
  c.progressMark(); c.nontriv();
}
// every wrongly sized file has to be reported by at least one rank (exception or number of values)
template <class T> void damaged(hz::Ctx& c, const std::string& ty, const IV& w, const IV& r, bool compressed, bool reduce, const std::string& content, const std::string& how) {
  put("d", content);
  for (int eof = 0; eof < 2 && !c.failed; ++eof) { vmpi::Options o; o.nranks = (int)r.size(); o.eofPadsZero = eof;
  c.count(1);
  c.checkFails((eof ? std::string("zeros beyond the end: ") : std::string()) + hz::fmt("%s%s %s of a file of distribution %s with %s, %s", compressed ? "compressed " : "", ty.c_str(), reduce ? "read and reduce" : "read", hz::vs(w).c_str(), hz::vs(r).c_str(), how.c_str()), o, [=](int rank) {
    canary::mark();
    vector<T> g(r[rank], T(1)); int n = -1;
    try {
      if (compressed) n = reduce ? cg::mpiio::readReduceCompressedValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), "d", MPI_COMM_WORLD, std::plus<T>{}) : cg::mpiio::readCompressedValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), "d", MPI_COMM_WORLD);
      else n = reduce ? cg::mpiio::readReduceValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), "d", MPI_COMM_WORLD, 2, std::plus<T>{}) : cg::mpiio::readValuesConsecutive<T>(g.data(), (MPI_Offset)g.size(), "d", MPI_COMM_WORLD);
    } catch (std::exception&) { REQ(canary::intact(), "memory outside of the buffers was written before the error was reported"); vmpi::fail("reported", "exception"); }
    REQ(canary::intact(), "memory outside of the buffers was written");
    if (n != r[rank]) vmpi::fail("reported", "count");
  }, "reported", "the file was accepted although its size does not match"); }
}
template <class T> void damageCase(hz::Ctx& c, const std::string& ty, const IV& w, bool compressed, bool all) {
  long total = sum(w); std::string good;
  if (!compressed) good = fileOf<T>(total);
  else {
    vmpi::Options o; o.nranks = (int)w.size();
    if (!c.check("write", o, [=](int rank) { vector<T> v; for (int i = 0; i < w[rank]; ++i) v.push_back(value<T>(before(w, rank) + i)); cg::mpiio::writeCompressedValuesConsecutive<T>(v.data(), (MPI_Offset)v.size(), "d0", MPI_COMM_WORLD, true); })) return;
    good = slurp("d0");
  }
  for (int red = 0; red < 2; ++red) {
    for (size_t len = 0; len < good.size() && !c.failed; ++len) { if (!compressed && total == 0) break; damaged<T>(c, ty, w, w, compressed, red, good.substr(0, len), hz::fmt("truncated to %d of %d bytes", (int)len, (int)good.size())); c.progressMark(); }
    for (int k = 1; k <= (int)sizeof(T) * 2 && !c.failed; ++k) damaged<T>(c, ty, w, w, compressed, red, good + std::string(k, '\0'), hz::fmt("with %d more bytes", k));
    // read with a distribution of another total; compressed files also with any other distribution
    for (int m = 1; m <= (all ? 4 : 3); ++m) for (long t = 0; t <= total + 2; ++t) for (auto& r : comps(t, m)) if (!c.failed && (compressed ? r != w : t != total)) { damaged<T>(c, ty, w, r, compressed, red, good, "undamaged"); c.progressMark(); }
  }
  c.nontriv();
}
}  // namespace

int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C08");
  bool T = h.thorough();
  // --- values over ranks
  int nmax = T ? 4 : 3, cmax = 3;
  for (int m = 1; m <= nmax; ++m) for (auto& w : cube(m, 0, m == 4 ? 2 : cmax)) {
    h.add("plain double " + hz::vs(w), [=](hz::Ctx& c) { plainCase<double>(c, "double", w, nmax); });
    if (m <= 2 || T) {
      h.add("plain complex " + hz::vs(w), [=](hz::Ctx& c) { plainCase<cd>(c, "complex<double>", w, 3); });
      h.add("plain uint32 " + hz::vs(w), [=](hz::Ctx& c) { plainCase<uint32_t>(c, "uint32", w, 3); });
      h.add("plain float " + hz::vs(w), [=](hz::Ctx& c) { plainCase<float>(c, "float", w, 2); });
      h.add("plain char " + hz::vs(w), [=](hz::Ctx& c) { plainCase<char>(c, "char", w, 2); });
    }
  }
  for (int m = 1; m <= (T ? 5 : 4); ++m) for (auto& w : cube(m, 0, m >= 4 ? 2 : cmax)) {
    h.add("compressed double " + hz::vs(w), [=](hz::Ctx& c) { compressedCase<double>(c, "double", w); });
    if (m <= 3 || T) { h.add("compressed complex " + hz::vs(w), [=](hz::Ctx& c) { compressedCase<cd>(c, "complex<double>", w); }); h.add("compressed float " + hz::vs(w), [=](hz::Ctx& c) { compressedCase<float>(c, "float", w); }); }
  }
  // many ranks
  for (int m : {8, 9, 12, 17}) for (int k = 0; k < 4; ++k) { IV w; for (int r = 0; r < m; ++r) w.push_back(k == 0 ? 1 : k == 1 ? r % 3 : k == 2 ? (r == m - 1 ? 40 : 0) : (r * 5 + 3) % 11); h.add("many ranks " + hz::vs(w), [=](hz::Ctx& c) { compressedCase<double>(c, "double", w); compressedCase<float>(c, "float", w); manyCase<double>(c, "double", w); manyCase<uint32_t>(c, "uint32", w); }); }
  // --- blocks of 4 MiB: all lengths around multiples of the block and buffer sizes
  {
    const long B = 4 << 20, S = 4210776;   // block size and a size beyond which two streaming rounds are needed
    for (long base : {B, S, 2 * B, 2 * S}) for (int mode = 0; mode < 3; ++mode) {
      if (!T && base == 2 * B && mode) continue;
      h.add(hz::fmt("big double %ld data %d", base, mode), [=](hz::Ctx& c) { for (long d : {-8l, 0l, 8l, 64l}) { bigCase<double>(c, "double", {(base + d) / 8}, mode, true); if (d == 8) bigCase<double>(c, "double", {(base + d) / 8, 3, 0, (base - d) / 8}, mode, true); } });
      h.add(hz::fmt("big complex %ld data %d", base, mode), [=](hz::Ctx& c) { for (long d : {-16l, 0l, 16l, 64l}) { bigCase<cd>(c, "complex<double>", {(base + d) / 16}, mode, true); if (d == 16) bigCase<cd>(c, "complex<double>", {2, (base + d) / 16, 0}, mode, true); } });
      h.add(hz::fmt("big float %ld data %d", base, mode), [=](hz::Ctx& c) { for (long d : {-4l, 0l, 4l}) bigCase<float>(c, "float", {(base + d) / 4}, mode, true); });
    }
    h.add("big plain", [=](hz::Ctx& c) { for (long k : {131071l, 131072l, 131073l, 262144l, 262145l}) for (int m = 1; m < 4; ++m) { vector<long> w(m, 0); w[m - 1] = k; if (m > 1) w[0] = 131073; bigCase<double>(c, "double", w, 0, false); bigCase<uint32_t>(c, "uint32", w, 2, false); } });
  }
  // --- damaged files
  for (int m = 1; m <= (T ? 4 : 3); ++m) for (auto& w : cube(m, 0, m == 1 ? 5 : T ? 3 : 2)) {
    if (m == 4 && sum(w) > 4) continue;
    h.add("damaged double " + hz::vs(w), [=](hz::Ctx& c) { damageCase<double>(c, "double", w, false, T); });
    h.add("damaged compressed " + hz::vs(w), [=](hz::Ctx& c) { damageCase<double>(c, "double", w, true, T); });
    if (m <= 2) { h.add("damaged uint32 " + hz::vs(w), [=](hz::Ctx& c) { damageCase<uint32_t>(c, "uint32", w, false, T); }); h.add("damaged compressed complex " + hz::vs(w), [=](hz::Ctx& c) { damageCase<cd>(c, "complex<double>", w, true, T); }); }
  }
  h.add("missing file", [=](hz::Ctx& c) {
    for (int m = 1; m <= 3; ++m) for (int k = 0; k < 4; ++k) { unlink("nothere"); vmpi::Options o; o.nranks = m;
      c.checkFails(hz::fmt("missing file, %d ranks, reader %d", m, k), o, [=](int) { double x[2]; int n = -1; try { n = k == 0 ? cg::mpiio::readValuesConsecutive<double>(x, 2, "nothere", MPI_COMM_WORLD) : k == 1 ? cg::mpiio::readReduceValuesConsecutive<double>(x, 2, "nothere", MPI_COMM_WORLD, 1, std::plus<double>{}) : k == 2 ? cg::mpiio::readCompressedValuesConsecutive<double>(x, 2, "nothere", MPI_COMM_WORLD) : cg::mpiio::readReduceCompressedValuesConsecutive<double>(x, 2, "nothere", MPI_COMM_WORLD, std::plus<double>{}); } catch (std::exception&) { vmpi::fail("reported", ""); } if (n != 2) vmpi::fail("reported", ""); }, "reported", "reading a missing file succeeded"); }
  });
  // --- text files collected on the root
  for (int m = 1; m <= (T ? 4 : 3); ++m) for (auto& w : cube(m, 0, 3)) h.add("collected text " + hz::vs(w), [=](hz::Ctx& c) {
    vmpi::Options o; o.nranks = m;
    c.check("collected text " + hz::vs(w), o, [=](int rank) {
      std::string want; for (int i = 0; i < sum(w); ++i) want += char(i == 2 ? 0 : i * 37 + 5);
      for (int mode = 0; mode < 3; ++mode) {
        if (rank == 0) { if (mode) put("t.txt", want + "older longer contents"); else unlink("t.txt"); }
        MPI_Barrier(MPI_COMM_WORLD);
        std::string mine = want.substr(before(w, rank), w[rank]);
        cg::writeConcatenatedFileRootOnly(mine.data(), mine.size(), "t.txt", MPI_COMM_WORLD, mode == 1);
        MPI_Barrier(MPI_COMM_WORLD);
        if (rank == 0) REQ(slurp("t.txt") == want, "file does not hold the contents of all ranks in order (mode %d)", mode);
        MPI_Barrier(MPI_COMM_WORLD);
        REQ(cg::getFileExistsRootOnly("t.txt", MPI_COMM_WORLD), "existing file not found"); REQ(!cg::getFileExistsRootOnly("nothere", MPI_COMM_WORLD), "missing file found");
        for (int root = 0; root < m; ++root) REQ(cg::getFileExistsRootOnly("t.txt", MPI_COMM_WORLD, root), "existing file not found by root %d", root);
      }
    });
    c.nontriv();
  });
#include "c08_grids.inc"
  h.rule = "the file equals the concatenation of the ranks' values; reading it back on every distribution gives identical bits, reading with reduction exactly one addition; every truncation, extension and mismatching distribution ends in an exception or a different count on at least one rank, before memory outside the target is touched";
  h.bounds = T ? "values over ranks: <= 4 ranks, <= 3 values each, all reader distributions on <= 4 ranks and all buffer lengths; every truncation length; 4 MiB block borders; selected distributions over 8-17 ranks" : "values over ranks: <= 3 ranks (compressed 4), <= 3 values each, all reader distributions on <= 3 ranks and all buffer lengths; every truncation length; 4 MiB block borders; selected distributions over 8-17 ranks";
  h.assumptions = {"MPI-IO semantics as modelled by libvmpi on the local file system", "at least one rank reporting an error ends the whole run (as mpirun does)"};
  return h.run();
}
