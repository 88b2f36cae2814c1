// Reference model shared by the drivers: grids, decompositions, 1-D bases - written independently of the
// library (straight from the mathematical definitions, on undistributed arrays).
#pragma once
#include <cmath>
#include <functional>
#include <map>
#include <numeric>
#include <string>
#include <vector>
#include "harness.hpp"
#include "mpi.h"

namespace ref {
using std::vector;
typedef vector<int> IV;

inline long prod(const IV& v) { long p = 1; for (int x : v) p *= x; return p; }
// all vectors lo <= v <= hi (component-wise)
inline vector<IV> box(const IV& lo, const IV& hi) {
  vector<IV> out; IV v = lo; if (v.empty()) return out;
  for (size_t i = 0; i < lo.size(); ++i) if (lo[i] > hi[i]) return out;
  for (;;) { out.push_back(v); size_t d = 0; while (d < v.size() && v[d] == hi[d]) { v[d] = lo[d]; ++d; } if (d == v.size()) break; ++v[d]; }
  return out;
}
inline vector<IV> cube(int dim, int lo, int hi) { return box(IV(dim, lo), IV(dim, hi)); }
// all strictly increasing vectors of lower bounds (0 first) splitting n points into p non-empty parts
inline vector<IV> splits(int n, int p) {
  vector<IV> out; IV cur{0};
  std::function<void(int)> rec = [&](int next) { if ((int)cur.size() == p) { out.push_back(cur); return; } for (int i = next; i < n; ++i) { cur.push_back(i); rec(i + 1); cur.pop_back(); } };
  rec(1); return out;
}
inline double binom(int n, int k) { if (k < 0 || k > n) return 0; double r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return std::floor(r + 0.5); }
// i-th decomposition of n points into p parts (lexicographic unranking) and number of decompositions
inline double nsplits(int n, int p) { return binom(n - 1, p - 1); }
inline IV splitAt(int n, int p, double i) { IV r{0}; int pos = 1; for (int k = p - 1; k > 0; --k) { for (;; ++pos) { double c = binom(n - 1 - pos, k - 1); if (i < c) { r.push_back(pos++); break; } i -= c; } } return r; }
inline double ndecs(const IV& n, const IV& p) { double r = 1; for (size_t d = 0; d < n.size(); ++d) r *= nsplits(n[d], p[d]); return r; }
inline vector<IV> decAt(const IV& n, const IV& p, double i) { vector<IV> r; for (size_t d = 0; d < n.size(); ++d) { double c = nsplits(n[d], p[d]); double q = std::floor(i / c); r.push_back(splitAt(n[d], p[d], i - q * c)); i = q; } return r; }
// all decompositions if there are at most mx, else mx evenly spaced ones starting at `first`
inline vector<vector<IV>> decList(const IV& n, const IV& p, long mx, long first = 0) { double t = ndecs(n, p); double st = std::max(1.0, std::ceil(t / mx)); vector<vector<IV>> out; for (double i = std::fmod((double)first, st); i < t; i += st) out.push_back(decAt(n, p, i)); return out; }
inline int npoints(int level, int bnd) { return (1 << level) + bnd - 1; }
inline IV npoints(const IV& l, const IV& b) { IV n(l.size()); for (size_t d = 0; d < l.size(); ++d) n[d] = npoints(l[d], b[d]); return n; }
inline IV unlin(long i, const IV& n) { IV v(n.size()); for (size_t d = 0; d < n.size(); ++d) { v[d] = int(i % n[d]); i /= n[d]; } return v; }
inline long lin(const IV& v, const IV& n) { long r = 0, s = 1; for (size_t d = 0; d < n.size(); ++d) { r += s * v[d]; s *= n[d]; } return r; }
// rank -> cartesian coordinates as MPI_Cart_create orders them (row major)
inline IV cartCoords(int r, const IV& procs) { IV c(procs.size()); for (int d = (int)procs.size() - 1; d >= 0; --d) { c[d] = r % procs[d]; r /= procs[d]; } return c; }
inline int cartRank(const IV& c, const IV& procs) { int r = 0; for (size_t d = 0; d < procs.size(); ++d) r = r * procs[d] + c[d]; return r; }
// hierarchical level of 1-D index i (0 for the boundary)
inline int level1d(int i, int L, int bnd) { int g = i + (bnd == 0 ? 1 : 0); if (g == 0 || g == (1 << L)) return 0; int l = L; while (g % 2 == 0) { g /= 2; --l; } return l; }
// subspace level used by sparse grids: boundary points belong to level 1
inline int subspace1d(int i, int L, int bnd) { int l = level1d(i, L, bnd); return l == 0 ? 1 : l; }
inline double coord1d(int i, int L, int bnd) { return double(i + (bnd == 0 ? 1 : 0)) / double(1 << L); }

struct Grid {
  IV levels, bnd, n; vector<double> v;
  Grid() {}
  Grid(const IV& l, const IV& b) : levels(l), bnd(b), n(npoints(l, b)), v(prod(n), 0.0) {}
  int dim() const { return (int)levels.size(); }
  long size() const { return (long)v.size(); }
  vector<double> coords(long i) const { IV x = unlin(i, n); vector<double> c(dim()); for (int d = 0; d < dim(); ++d) c[d] = coord1d(x[d], levels[d], bnd[d]); return c; }
  IV subspace(long i) const { IV x = unlin(i, n), s(dim()); for (int d = 0; d < dim(); ++d) s[d] = subspace1d(x[d], levels[d], bnd[d]); return s; }
};

enum Basis { HAT = 0, HATP, FW, FWP, BIO, BIOP };
inline const char* basisName(int b) { static const char* n[] = {"hat", "hat_periodic", "fullweighting", "fullweighting_periodic", "biorthogonal", "biorthogonal_periodic"}; return n[b]; }
inline bool basisPeriodic(int b) { return b % 2 == 1; }

// forward/backward transform of one 1-D pole given with all 2^L+1 points
inline void poleForward(vector<double>& y, int L, int lmin, int basis) {
  const int N = 1 << L; bool per = basisPeriodic(basis);
  for (int l = L; l > lmin; --l) {
    int s = 1 << (L - l);
    auto odd = [&] { for (int i = s; i < N; i += 2 * s) y[i] -= 0.5 * (y[i - s] + y[i + s]); };
    if (basis <= HATP) { odd(); continue; }
    if (basis <= FWP) {
      vector<double> z = y;
      for (int i = 2 * s; i < N; i += 2 * s) y[i] = 0.25 * z[i - s] + 0.5 * z[i] + 0.25 * z[i + s];
      if (per) { double m = 0.25 * (z[0] + z[N] + z[s] + z[N - s]); y[0] = y[N] = m; }
      else { y[0] = 0.5 * (z[0] + z[s]); y[N] = 0.5 * (z[N] + z[N - s]); }
      odd(); continue;
    }
    odd();
    vector<double> z = y;
    for (int i = 2 * s; i < N; i += 2 * s) y[i] = z[i] + 0.25 * (z[i - s] + z[i + s]);
    if (per) { double m = 0.5 * (z[0] + z[N]) + 0.25 * (z[s] + z[N - s]); y[0] = y[N] = m; }
    else { y[0] = z[0] + 0.5 * z[s]; y[N] = z[N] + 0.5 * z[N - s]; }
  }
}
inline void poleBackward(vector<double>& y, int L, int lmin, int basis) {
  const int N = 1 << L; bool per = basisPeriodic(basis);
  for (int l = lmin + 1; l <= L; ++l) {
    int s = 1 << (L - l);
    auto odd = [&] { for (int i = s; i < N; i += 2 * s) y[i] += 0.5 * (y[i - s] + y[i + s]); };
    if (basis <= HATP) { odd(); continue; }
    if (basis <= FWP) {   // invert: odd back first (using averaged evens), then even = 2*avg - 0.5*(l+r)
      odd();
      vector<double> z = y;
      for (int i = 2 * s; i < N; i += 2 * s) y[i] = 2.0 * (z[i] - 0.25 * (z[i - s] + z[i + s]));
      if (per) { double m = (4.0 * z[0] - z[s] - z[N - s]) / 2.0; y[0] = y[N] = m; }
      else { y[0] = 2.0 * z[0] - z[s]; y[N] = 2.0 * z[N] - z[N - s]; }
      continue;
    }
    vector<double> z = y;
    for (int i = 2 * s; i < N; i += 2 * s) y[i] = z[i] - 0.25 * (z[i - s] + z[i + s]);
    if (per) { double m = z[0] - 0.25 * (z[s] + z[N - s]); y[0] = y[N] = m; }
    else { y[0] = z[0] - 0.5 * z[s]; y[N] = z[N] - 0.5 * z[N - s]; }
    odd();
  }
}
// applies f to every 1-D pole of g in dimension d (poles completed to 2^L+1 points)
inline void eachPole(Grid& g, int d, const std::function<void(vector<double>&)>& f) {
  int L = g.levels[d], N = 1 << L, b = g.bnd[d]; long stride = 1; for (int k = 0; k < d; ++k) stride *= g.n[k];
  for (long i = 0; i < g.size(); ++i) {
    if ((i / stride) % g.n[d] != 0) continue;
    vector<double> y(N + 1, 0.0);
    int off = b == 0 ? 1 : 0;
    for (int k = 0; k < g.n[d]; ++k) y[k + off] = g.v[i + k * stride];
    if (b == 1) y[N] = y[0];
    f(y);
    for (int k = 0; k < g.n[d]; ++k) g.v[i + k * stride] = y[k + off];
  }
}
inline void transform(Grid& g, const vector<int>& basis, const IV& lmin, bool forward, const vector<bool>& dims = {}) {
  for (int d = 0; d < g.dim(); ++d) {
    if (!dims.empty() && !dims[d]) continue;
    if (lmin[d] >= g.levels[d]) continue;
    eachPole(g, d, [&](vector<double>& y) { if (forward) poleForward(y, g.levels[d], lmin[d], basis[d]); else poleBackward(y, g.levels[d], lmin[d], basis[d]); });
  }
}
// multilinear interpolant (zero at a missing boundary, periodic across one-sided boundaries)
inline double evalAt(const Grid& g, const vector<double>& x) {
  int dim = g.dim(); double r = 0;
  for (int m = 0; m < (1 << dim); ++m) {
    double w = 1; IV idx(dim); bool zero = false;
    for (int d = 0; d < dim && !zero; ++d) {
      int N = 1 << g.levels[d]; double t = x[d] * N; int c = (int)std::floor(t); if (c >= N) c = N - 1; double f = t - c;
      int p = c + ((m >> d) & 1); w *= ((m >> d) & 1) ? f : 1 - f;
      if (g.bnd[d] == 2) idx[d] = p; else if (g.bnd[d] == 1) idx[d] = p % N; else { if (p == 0 || p == N) zero = true; idx[d] = p - 1; }
    }
    if (!zero && w != 0) r += w * g.v[lin(idx, g.n)];
  }
  return r;
}
// deterministic data: irregular values, exactly representable, so that sums of few are well conditioned
inline double val(long i, int salt = 0) { unsigned long h = (unsigned long)(i + 1) * 2654435761ul + (unsigned long)(salt + 7) * 40503ul * 2246822519ul; h ^= h >> 15; h *= 2246822519ul; h ^= h >> 13; return double((long)(h % 4001) - 2000) / 256.0; }
inline bool close(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1.0 + std::abs(a) + std::abs(b)); }
inline MPI_Comm cart(MPI_Comm c, const IV& procs, const IV& bnd) {
  IV per(procs.size()), p = procs; for (size_t d = 0; d < procs.size(); ++d) per[d] = bnd[d] == 1; MPI_Comm out; MPI_Cart_create(c, (int)procs.size(), p.data(), per.data(), 0, &out); return out;
}
inline vector<unsigned char> u8(const IV& b) { return vector<unsigned char>(b.begin(), b.end()); }
// default decompositions of the library's documentation: equal parts, middle points right (forward) or left
inline IV defaultSplit(int n, int p, bool fwd) { IV r(p); for (int j = 0; j < p; ++j) { double t = double(n) * j / p; r[j] = fwd ? (int)std::ceil(t) : (int)std::floor(t); } return r; }
// the index range of a rank
inline void bounds(const IV& n, const IV& procs, const vector<IV>& dec, int r, IV& lo, IV& hi) { IV c = cartCoords(r, procs); lo.resize(n.size()); hi.resize(n.size()); for (size_t d = 0; d < n.size(); ++d) { lo[d] = dec[d][c[d]]; hi[d] = c[d] + 1 < procs[d] ? dec[d][c[d] + 1] : n[d]; } }
inline std::string decs(const vector<IV>& dec) { std::string s; for (auto& d : dec) s += hz::vs(d); return s; }
// cartesian product of per-dimension lists
inline vector<vector<IV>> productOf(const vector<vector<IV>>& per) { vector<vector<IV>> out{{}}; for (auto& l : per) { vector<vector<IV>> nx; for (auto& o : out) for (auto& x : l) { auto c = o; c.push_back(x); nx.push_back(c); } out = nx; } return out; }
}  // namespace ref

#define REQ(cond, ...) do { if (!(cond)) vmpi::fail("property", hz::fmt(__VA_ARGS__)); } while (0)
