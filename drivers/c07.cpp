// C07: communicator world; all layouts, all ways to set it up, all histories of two setups, all numbers of file parts.
#include "common.hpp"
#include "mpi/MPISystem.hpp"
using namespace ref;
namespace cg = combigrid;
namespace {
struct Lay { int g, p; bool m; int size() const { return g * p + (m ? 1 : 0); } std::string str() const { return hz::fmt("%dx%d%s", g, p, m ? "+M" : ""); } };
IV members(MPI_Comm c, int me) { int n; MPI_Comm_size(c, &n); IV r(n); MPI_Allgather(&me, 1, MPI_INT, r.data(), 1, MPI_INT, c); int k; MPI_Comm_rank(c, &k); REQ(r[k] == me, "rank %d of a communicator is not the caller", k); return r; }
void same(const IV& a, const IV& b, const char* what) { REQ(a == b, "%s has members %s, expected %s", what, hz::vs(a).c_str(), hz::vs(b).c_str()); }
// checks the whole world from rank r of wcomm; parts: file parts requested last
void checkWorld(const Lay& L, MPI_Comm w, int parts) {
  auto S = cg::theMPISystem();
  int r, n; MPI_Comm_rank(w, &r); MPI_Comm_size(w, &n);
  REQ(S->isInitialized(), "not initialized");
  int cmp; MPI_Comm_compare(S->getWorldComm(), w, &cmp); REQ(cmp == MPI_IDENT, "world communicator is not the given one");
  REQ(S->getWorldRank() == r && S->getWorldSize() == n, "world rank / size");
  REQ((int)S->getNumGroups() == L.g && (int)S->getNumProcs() == L.p, "numbers of groups / processes");
  bool man = L.m && r == n - 1;
  int g = man ? -1 : r / L.p, l = man ? -1 : r % L.p;
  REQ(S->isWorldManager() == man, "isWorldManager() is %d", S->isWorldManager());
  REQ(S->getManagerRankWorld() == (L.m ? n - 1 : MPI_PROC_NULL), "manager rank in world is %d", S->getManagerRankWorld());
  REQ(S->getProcessGroupNumber() == g, "group number %d, expected %d", S->getProcessGroupNumber(), g);
  REQ(S->isProcessGroupMaster() == (l == 0), "isProcessGroupMaster() is %d for local rank %d", S->isProcessGroupMaster(), l);
  if (L.m) REQ(S->isThirdLevelManager() == man, "isThirdLevelManager() is %d", S->isThirdLevelManager());
  // local
  if (man) REQ(S->getLocalComm() == MPI_COMM_NULL, "manager has a local communicator");
  else { REQ(S->getLocalComm() != MPI_COMM_NULL, "worker without local communicator"); IV e; for (int i = 0; i < L.p; ++i) e.push_back(g * L.p + i); same(members(S->getLocalComm(), r), e, "local communicator"); REQ(S->getLocalRank() == l, "local rank %d, expected %d", S->getLocalRank(), l); REQ(S->getMasterRank() == 0, "master rank"); }
  // global
  bool inG = man || l == 0;
  REQ((S->getGlobalComm() != MPI_COMM_NULL) == inG, "membership in the global communicator");
  if (inG) {
    IV e; for (int i = 0; i < L.g; ++i) e.push_back(i * L.p); if (L.m) e.push_back(n - 1);
    same(members(S->getGlobalComm(), r), e, "global communicator");
    REQ(S->getGlobalRank() == (man ? L.g : g), "global rank %d", S->getGlobalRank());
    if (L.m) REQ(S->getManagerRank() == L.g, "manager rank in the global communicator is %d", S->getManagerRank());
  }
  // reduction
  if (man) REQ(S->getGlobalReduceComm() == MPI_COMM_NULL, "manager is in a reduction communicator");
  else { IV e; for (int i = 0; i < L.g; ++i) e.push_back(i * L.p + l); same(members(S->getGlobalReduceComm(), r), e, "reduction communicator"); REQ(S->getGlobalReduceRank() == g, "rank %d in the reduction communicator", S->getGlobalReduceRank()); }
  // third level: one communicator per group with the manager last
  if (L.m) {
    auto& t = S->getThirdLevelComms(); REQ((int)t.size() == (man ? L.g : 1), "%d third-level communicators", (int)t.size());
    for (int i = 0; i < L.g; ++i) { if (!man && i != g) continue; IV e; for (int q = 0; q < L.p; ++q) e.push_back(i * L.p + q); e.push_back(n - 1); same(members(t[man ? i : 0], r), e, "third-level communicator"); }
    REQ(S->getThirdLevelManagerRank() == L.p, "third-level manager rank %d", S->getThirdLevelManagerRank());
  } else REQ(S->getThirdLevelComms().empty(), "third-level communicators without manager");
  // output: every local position exactly once, in order; owner as announced inside the reduction communicator
  bool inO = S->getOutputGroupComm() != MPI_COMM_NULL;
  if (man) REQ(!inO, "manager is in the output group");
  int flag = inO; IV all(n); MPI_Allgather(&flag, 1, MPI_INT, all.data(), 1, MPI_INT, w);
  IV owner(L.p, -1);
  for (int i = 0; i < L.g * L.p; ++i) if (all[i]) { REQ(owner[i % L.p] < 0, "group-local position %d is twice in the output group", i % L.p); owner[i % L.p] = i; }
  for (int i = 0; i < L.p; ++i) REQ(owner[i] >= 0, "group-local position %d is not in the output group", i);
  if (!man) REQ(S->getOutputRankInGlobalReduceComm() == owner[l] / L.p, "output rank %d in the reduction communicator, the member of the output group is in group %d", S->getOutputRankInGlobalReduceComm(), owner[l] / L.p);
  int part = -1; IV pos(n), pr(n);
  if (inO) {
    same(members(S->getOutputGroupComm(), r), owner, "output group"); REQ(S->getOutputGroupRank() == l, "output group rank %d at position %d", S->getOutputGroupRank(), l);
    part = S->getFilePartNumber(); MPI_Comm oc = S->getOutputComm(); REQ(oc != MPI_COMM_NULL, "no output communicator");
    REQ(part >= 0 && part < parts, "file part number %d of %d", part, parts);
    IV q(L.p); MPI_Allgather(&part, 1, MPI_INT, q.data(), 1, MPI_INT, S->getOutputGroupComm());
    IV e; std::set<int> used; for (int i = 0; i < L.p; ++i) { used.insert(q[i]); if (q[i] == part) e.push_back(owner[i]); if (i) REQ(q[i] == q[i - 1] || q[i] == q[i - 1] + 1, "file parts are not consecutive: %s", hz::vs(q).c_str()); }
    REQ((int)used.size() == parts, "%d file parts, %d requested", (int)used.size(), parts);
    same(members(oc, r), e, "output communicator of a file part");
    bool root = false; OUTPUT_ROOT_EXCLUSIVE_SECTION root = true;
    REQ(root == (e[0] == r), "output root");
  } else {
    bool t = false; try { S->getFilePartNumber(); } catch (std::runtime_error&) { t = true; } REQ(t, "file part number outside the output group");
  }
}
}  // namespace
int main(int argc, char** argv) {
  hz::Harness h(argc, argv, "C07");
  bool T = h.thorough(); int MX = T ? 26 : 17;
  vector<Lay> lays; for (int g = 1; g <= MX; ++g) for (int p = 1; p <= MX; ++p) for (int m = 0; m < 2; ++m) if (g * p + m <= MX) lays.push_back({g, p, (bool)m});
  struct SO { bool late, sync; const char* n; };
  vector<SO> so = {{false, false, ""}, {true, true, " sync"}};
  auto opt = [](int n, const SO& s) { vmpi::Options o; o.nranks = n; o.syncColl = s.sync; o.reverseSched = s.late; return o; };
  vector<Lay> big = lays; for (int m = 0; m < 2; ++m) for (auto& x : vector<Lay>{{8, 8}, {2, 32}, {32, 2}, {64, 1}, {1, 64}, {5, 13}}) big.push_back({x.g, x.p, (bool)m});
  for (auto L : big) for (int how = 0; how < 4; ++how)
    h.add(hz::fmt("layout %s how=%d", L.str().c_str(), how), [=](hz::Ctx& c) {
      for (auto& s : so) for (int parts = 1; parts <= (how == 2 ? L.p : 1); ++parts) {
        c.check(hz::fmt("parts=%d%s", parts, s.n), opt(L.size() + (how == 3 ? 2 : 0), s), [=](int r) {
          auto S = cg::theMPISystem(); MPI_Comm w = MPI_COMM_WORLD;
          if (how == 0) S->init(L.g, L.p, L.m);
          else if (how == 1) { MPI_Comm lc; bool man = L.m && r == L.size() - 1; MPI_Comm_split(MPI_COMM_WORLD, man ? 100 : r / L.p, r, &lc); S->init(L.g, L.p, lc, L.m); }
          else if (how == 2) S->initWorldReusable(w, L.g, L.p, L.m);
          else { int n = L.size() + 2; bool in = r > 0 && r < n - 1; MPI_Comm_split(MPI_COMM_WORLD, in ? 0 : MPI_UNDEFINED, n - r, &w); if (!in) return; S->initWorldReusable(w, L.g, L.p, L.m); }
          if (parts > 1) S->initOutputGroupComm((uint16_t)parts);
          checkWorld(L, w, parts);
        });
        c.count(L.size() * 20); c.nontriv(); if (c.failed) return;
      }
    });
  // histories: two layouts of the same world, and two numbers of file parts in each
  for (auto L : lays) for (auto K : lays) if (L.size() == K.size())
    h.add(hz::fmt("history %s %s", L.str().c_str(), K.str().c_str()), [=](hz::Ctx& c) {
      for (int a = 1; a <= L.p; ++a) for (int b = 1; b <= K.p; ++b) for (int d = 1; d <= K.p; ++d) {
        if (!T && (a > 2 && a < L.p)) continue;
        if (L.p * K.p * K.p > (T ? 600 : 150) && ((a > 2 && a < L.p) || (b > 3 && b < K.p - 1) || (d > 3 && d < K.p - 1))) continue;
        c.check(hz::fmt("parts=%d,%d,%d", a, b, d), opt(L.size(), so[(a + b + d) % 2]), [=](int) {
          auto S = cg::theMPISystem(); S->initWorldReusable(MPI_COMM_WORLD, L.g, L.p, L.m); if (a > 1) S->initOutputGroupComm((uint16_t)a); checkWorld(L, MPI_COMM_WORLD, a);
          S->initWorldReusable(MPI_COMM_WORLD, K.g, K.p, K.m); checkWorld(K, MPI_COMM_WORLD, 1);
          S->initOutputGroupComm((uint16_t)b); checkWorld(K, MPI_COMM_WORLD, b); S->initOutputGroupComm((uint16_t)d); checkWorld(K, MPI_COMM_WORLD, d);
        });
        c.count(L.size() * 60); c.nontriv(); if (c.failed) return; c.progressMark();
      }
    });
  // a layout that does not fit the number of processes is refused everywhere
  for (int n = 1; n <= 8; ++n) h.add(hz::fmt("wrong size %d", n), [=](hz::Ctx& c) {
    for (int g = 1; g <= n + 1; ++g) for (int p = 1; p <= n + 1; ++p) for (int m = 0; m < 2; ++m) for (int how = 0; how < 2; ++how) {
      if (g * p + m == n) continue;
      c.check(hz::fmt("%dx%d m=%d how=%d", g, p, m, how), opt(n, so[0]), [=](int) {
        bool t = false; try { if (how) cg::theMPISystem()->initWorldReusable(MPI_COMM_WORLD, g, p, m); else cg::theMPISystem()->init(g, p, (bool)m); } catch (std::invalid_argument&) { t = true; }
        REQ(t, "a layout of %d groups with %d processes %s manager was accepted for %d processes", g, p, m ? "and a" : "without", n);
      });
      c.count(n); if (c.failed) return;
    }
    if (n > 1) c.check("too many parts", opt(n, so[0]), [=](int) {
      for (int p = n + 1; p <= n + 3; ++p) { cg::theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, n, false); bool t = false; try { cg::theMPISystem()->initOutputGroupComm((uint16_t)p); } catch (std::invalid_argument&) { t = true; } REQ(t, "%d file parts accepted for %d processes per group", p, n); }
    });
    // manager-only
    c.check("manager only", opt(n, so[0]), [=](int) {
      if (n == 1) { cg::theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 0, 0, true); REQ(cg::theMPISystem()->isWorldManager(), "lone manager"); }
    });
  });
  h.rule = "every layout groups x processes (x manager) that fits, set up in all four ways (init, init with given local communicator, reusable, reusable on a sub-communicator in reversed order), all numbers of file parts, all ordered pairs of layouts of the same world with file part histories";
  h.bounds = hz::fmt("at most %d ranks", MX);
  h.assumptions = {"conforming MPI as modelled by vmpi; FT disabled build"};
  return h.run();
}
