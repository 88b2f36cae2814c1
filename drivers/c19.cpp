// C19: undistributed full grids and their hierarchization; all grids up to a size.
#include <complex>
#include <iomanip>
#include "common.hpp"
#include "fullgrid/FullGrid.hpp"
#include "hierarchization/Hierarchization.hpp"
using namespace ref;
namespace cg = combigrid;
namespace {
typedef std::complex<double> cplx;
template <class E> E mk(double a, double b); template <> double mk<double>(double a, double) { return a; } template <> cplx mk<cplx>(double a, double b) { return cplx(a, b); }
double re(double x) { return x; } double im(double) { return 0; } double re(const cplx& x) { return x.real(); } double im(const cplx& x) { return x.imag(); }
// weights of the 1-D interpolant at x: linear between points, linear extrapolation beyond the outermost ones; a single inner point carries a hat function
void weights(double x, int L, int b, int& i0, double& w0, int& i1, double& w1) {
  int n = npoints(L, b); if (n == 1) { i0 = i1 = 0; w0 = x > 0.5 ? 2 * (1 - x) : 2 * x; w1 = 0; return; }
  double t = x * (1 << L) - (b == 0 ? 1 : 0); int c = (int)std::floor(t); c = std::max(0, std::min(c, n - 2)); i0 = c; i1 = c + 1; w1 = t - c; w0 = 1 - w1;
}
double interp(const Grid& g, const vector<double>& x) {
  int D = g.dim(); double r = 0; vector<int> a(D), b(D); vector<double> u(D), v(D); for (int d = 0; d < D; ++d) weights(x[d], g.levels[d], g.bnd[d], a[d], u[d], b[d], v[d]);
  for (int m = 0; m < (1 << D); ++m) { double w = 1; IV i(D); for (int d = 0; d < D; ++d) { bool s = (m >> d) & 1; w *= s ? v[d] : u[d]; i[d] = s ? b[d] : a[d]; } if (w != 0) r += w * g.v[lin(i, g.n)]; }
  return r;
}
template <class E> void fill(cg::FullGrid<E>& f, Grid& a, Grid& b, int salt) { f.createFullGrid(); for (long i = 0; i < a.size(); ++i) { a.v[i] = val(i, salt); b.v[i] = val(i, salt + 50); f.getData()[i] = mk<E>(a.v[i], b.v[i]); } }
template <class E> void same(const cg::FullGrid<E>& f, const Grid& a, const Grid& b, const char* what, double tol, long& n) {
  for (long i = 0; i < a.size(); ++i) { ++n; REQ(close(re(f.getData()[i]), a.v[i], tol) && (sizeof(E) == 8 || close(im(f.getData()[i]), b.v[i], tol)), "%s: value %ld of %s %s is %.12g, expected %.12g", what, i, hz::vs(a.levels).c_str(), hz::vs(a.bnd).c_str(), re(f.getData()[i]), a.v[i]); }
}
template <class E> long one(const IV& L, const IV& B, bool deep) {
  long cmp = 0; int D = L.size(); cg::LevelVector lv(L.begin(), L.end()); auto bv = u8(B); Grid A(L, B), I(L, B); long N = A.size();
  cg::FullGrid<E> f((cg::DimType)D, lv, bv);
  // structure
  auto structure = [&](cg::FullGrid<E>& f) {
    REQ(f.getDimension() == D && f.getLevels() == lv && f.returnBoundaryFlags() == bv && f.getNrElements() == N, "dimension, level, boundary or number of points"); long off = 1;
    for (int d = 0; d < D; ++d) { REQ(f.length(d) == A.n[d] && f.getSizes()[d] == A.n[d] && f.getOffset(d) == off && f.getOffsets()[d] == off, "extents or offsets in dimension %d", d); off *= A.n[d]; }
  };
  structure(f); REQ(!f.isGridCreated() && !f.isHierarchized(), "grid created or hierarchized from the start");
  bool uni = true, unib = true; for (int d = 1; d < D; ++d) { uni = uni && L[d] == L[0]; unib = unib && B[d] == B[0]; }
  if (unib) { cg::FullGrid<E> g((cg::DimType)D, lv, (cg::BoundaryType)B[0]); structure(g); if (uni) { cg::FullGrid<E> q((cg::DimType)D, (cg::LevelType)L[0], (cg::BoundaryType)B[0]); structure(q); } }
  f.createFullGrid(); REQ(f.isGridCreated() && (long)f.getElementVector().size() == N, "created"); for (long i = 0; i < N; ++i) REQ(f.getData()[i] == E(0), "a new grid is not zero");
  fill(f, A, I, 1);
  for (long i = 0; i < N; ++i) {
    IV x = unlin(i, A.n); cg::IndexVector v(D); f.getVectorIndex(i, v); REQ(std::equal(x.begin(), x.end(), v.begin()), "vector index of %ld", i); REQ(f.getLinearIndex(v) == i, "linear index of %ld", i);
    vector<double> c(D), e = A.coords(i); f.getCoords(i, c); REQ(c == e, "coordinates of %ld", i);
    cg::LevelVector l(D); cg::IndexVector k(D); f.getLI(i, l, k); for (int d = 0; d < D; ++d) { int p = x[d] + (B[d] == 0); REQ(p == 0 ? l[d] == 0 && k[d] == 0 : (k[d] % 2 == 1 && l[d] <= L[d] && l[d] >= 0 && (k[d] << (L[d] - l[d])) == p), "level %d and index %d of point %ld in dimension %d", (int)l[d], (int)k[d], i, d); }
    cmp += 3;
  }
  // evaluation on a lattice (grid points, between, outside the outermost points)
  { IV m(D); for (int d = 0; d < D; ++d) m[d] = deep && D < 3 ? (4 << L[d]) : D < 3 ? 12 : 5;
    for (auto& q : box(IV(D, 0), m)) { vector<double> x(D); for (int d = 0; d < D; ++d) x[d] = double(q[d]) / m[d]; auto y = x; E g = f.eval(y); ++cmp; double er = interp(A, x), ei = interp(I, x); REQ(close(re(g), er, 1e-10) && (sizeof(E) == 8 || close(im(g), ei, 1e-10)), "eval at lattice point %s of %s is %.12g, expected %.12g", hz::vs(q).c_str(), hz::vs(m).c_str(), re(g), er); }
    for (long i = 0; i < N; ++i) { auto x = A.coords(i); E g = f.eval(x); REQ(close(re(g), A.v[i], 1e-12), "eval at grid point %ld is %.12g, expected %.12g", i, re(g), A.v[i]); }
    vector<double> o(D, 0.5); for (int d = 0; d < D; ++d) { auto x = o; x[d] = -0.01; REQ(f.eval(x) == E(0), "outside of the domain"); x[d] = 1.01; REQ(f.eval(x) == E(0), "outside of the domain"); } }
  same(f, A, I, "evaluation changed the grid", 0, cmp);
  // norms
  { auto a = [&](long i) { return sizeof(E) == 8 ? std::abs(A.v[i]) : std::abs(cplx(A.v[i], I.v[i])); };
    for (int p = 0; p <= 3; ++p) { double e = 0; for (long i = 0; i < N; ++i) if (p == 0) e = std::max(e, a(i)); else e += std::pow(a(i), p); if (p) e = std::pow(e, 1. / p); double g = f.getlpNorm(p); REQ(close(g, e, 1e-12), "l%d norm is %.12g, expected %.12g", p, g, e);
      if (e > 0) { cg::FullGrid<E> q = f; double r = q.normalizelp(p); REQ(close(r, e, 1e-12) && close(q.getlpNorm(p), 1., 1e-12), "normalized grid has norm %g", q.getlpNorm(p)); Grid X = A, Y = I; for (auto& z : X.v) z /= e; for (auto& z : Y.v) z /= e; same(q, X, Y, "normalize", 1e-12, cmp); } } }
  // save and load, setElementVector, plot file
  { std::string fn = "fg.dat"; f.save(fn); cg::FullGrid<E> g(fn.c_str()); structure(g); REQ(g.isGridCreated() && !g.isHierarchized(), "flags of a loaded grid"); same(g, A, I, "loaded grid", 1e-15, cmp); unlink("fg.dat");
    cg::FullGrid<E> q((cg::DimType)D, lv, bv); q.setElementVector(f.getElementVector()); REQ(q.isGridCreated(), "created by setElementVector"); same(q, A, I, "setElementVector", 0, cmp); q.deleteFullGrid(); REQ(!q.isGridCreated() && q.getElementVector().empty(), "deleted"); q.createFullGrid(); for (long i = 0; i < N; ++i) REQ(q.getData()[i] == E(0), "old values after delete and create"); }
  if (sizeof(E) == 8) { f.writePlotFile("fg.plt"); std::ifstream s("fg.plt"); int dd = -1; s >> dd; REQ(dd == D, "dimension %d in the plot file", dd); for (int d = 0; d < D; ++d) { long n; s >> n; REQ(s && n == A.n[d], "extent in the plot file"); } for (long i = 0; i < N; ++i) { double v; s >> v; REQ(s && v == A.v[i], "value %ld in the plot file", i); ++cmp; } std::string rest; REQ(!(s >> rest), "more in the plot file"); unlink("fg.plt"); }
  // hierarchization
  bool h = true; for (int b : B) h = h && b != 1;
  if (h) {
    vector<int> hat(D, HAT); auto lm = [&] { IV z(D); for (int d = 0; d < D; ++d) z[d] = 0; return z; }(); Grid HA = A, HI = I;
    // without boundary the reference pole is completed by zeros, which is what the hat basis of a grid without boundary means
    transform(HA, hat, lm, true); transform(HI, hat, lm, true);
    cg::Hierarchization::hierarchize(f); REQ(f.isHierarchized(), "flag after hierarchize"); same(f, HA, HI, "hierarchize", 1e-11, cmp);
    { std::string fn = "fgh.dat"; f.save(fn); cg::FullGrid<E> g(fn.c_str()); REQ(g.isHierarchized(), "loaded grid lost the hierarchized flag"); unlink("fgh.dat"); }
    cg::Hierarchization::dehierarchize(f); REQ(!f.isHierarchized(), "flag after dehierarchize"); same(f, A, I, "dehierarchize", 1e-11, cmp);
    for (long k = 0; k < N && k < 40; ++k) { long i = k * 7 % N; cg::FullGrid<E> u((cg::DimType)D, lv, bv); u.createFullGrid(); u.getData()[i] = mk<E>(1, -2); u.setHierarchized(); Grid X(L, B), Y(L, B); X.v[i] = 1; Y.v[i] = -2; transform(X, hat, lm, false); transform(Y, hat, lm, false); cg::Hierarchization::dehierarchize(u); same(u, X, Y, "dehierarchized basis function", 1e-12, cmp); }
  }
  // sums with other grids
  for (int s = -1; s <= 1; ++s) for (int t = -1; t <= 1; ++t) for (int bb = -1; bb <= 2; ++bb) {
    if (!deep && D > 2 && bb >= 0 && s != t) continue;
    IV L2 = L, B2 = B; L2[0] += s; L2[D - 1] += D > 1 ? t : 0; if (D == 1 && t) continue; bool ok = true; for (int x : L2) ok = ok && x >= 1; if (!ok) continue; if (bb >= 0) { B2.assign(D, bb); if (D > 1) B2[1] = 2; }
    Grid A2(L2, B2), I2(L2, B2); cg::FullGrid<E> g((cg::DimType)D, cg::LevelVector(L2.begin(), L2.end()), u8(B2)); fill(g, A2, I2, 9); Grid X = A, Y = I; bool eq = L2 == L && B2 == B;
    for (long i = 0; i < N; ++i) { auto x = A.coords(i); X.v[i] += -1.5 * (eq ? A2.v[i] : interp(A2, x)); Y.v[i] += -1.5 * (eq ? I2.v[i] : interp(I2, x)); }
    cg::FullGrid<E> q((cg::DimType)D, lv, bv); q.setElementVector(f.getElementVector()); q.add(g, -1.5); same(q, X, Y, "add", 1e-10, cmp); same(g, A2, I2, "add changed its argument", 0, cmp);
    cg::FullGrid<E> z((cg::DimType)D, lv, bv); z.add(g, 1.0); REQ(z.isGridCreated(), "add creates the grid"); for (long i = 0; i < N; ++i) { X.v[i] = (X.v[i] - A.v[i]) / -1.5; Y.v[i] = (Y.v[i] - I.v[i]) / -1.5; } same(z, X, Y, "add to an empty grid", 1e-9, cmp);
  }
  return cmp;
}
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C19"); bool T = h.thorough();
  int mx[] = {0, T ? 9 : 8, T ? 5 : 4, T ? 4 : 3, T ? 3 : 2, T ? 2 : 1};
  for (int D = 1; D <= 5; ++D) for (auto& L : cube(D, 1, mx[D])) {
    if (D >= 4) { int s = 0; for (int x : L) s += x; if (s > (T ? 9 : 6)) continue; }
    h.add("levels=" + hz::vs(L), [=](hz::Ctx& c) {
      for (auto& B : cube(D, 0, 2)) { if (D >= 4 && !T) { int k = 0; for (int b : B) k += b == 1; if (k) continue; }
        for (int th : {1, 3}) { auto n = std::make_shared<long>(0); vmpi::Options o; o.nranks = 1; o.ompThreads = th; o.ompOrder = th > 1;
          c.check("boundary=" + hz::vs(B) + (th > 1 ? " threads" : ""), o, [=](int) { *n = th == 1 ? one<double>(L, B, T) : one<cplx>(L, B, false); }); if (c.failed) return; c.count(*n); c.nontriv(); c.progressMark(); } }
    });
  }
  h.rule = "index maps, coordinates and (level, index) pairs are consistent bijections; evaluation is the multilinear interpolant; sums, norms, files and hierarchical surpluses equal those of the reference";
  h.bounds = T ? "all levels and boundary flags: d=1 (<=9), d=2 (<=5), d=3 (<=4), d=4 (<=3, sum <=9), d=5 (<=2)" : "all levels and boundary flags: d=1 (<=8), d=2 (<=4), d=3 (<=3), d=4 (<=2, sum<=6), d=5 (1)";
  h.assumptions = {"sequential hierarchization is asked only for dimensions with two boundary points or none", "grid is created before it is evaluated or saved"};
  return h.run();
}
