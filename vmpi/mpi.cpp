// The MPI subset on top of the fiber scheduler.
#include "core.hpp"
#include <complex>
#include <fcntl.h>
#include <numeric>
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>
using namespace vmpi;

const size_t vmpi_basic_size[] = {1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 8, 16, 1, 16, 8, 8, 16};
vmpi_datatype::vmpi_datatype(const char* nm, int b) : name(nm), basic(b) {
  size = vmpi_basic_size[b];
  if (b == B_DI) size = 12;
  if (b == B_LI) size = 12;
  ub = vmpi_basic_size[b]; tub = size; segs = {{0, b, 1}}; committed = true;
}
extern "C" {
#define DT(n, b) vmpi_datatype vmpi_type_##n(#n, b);
DT(char, B_CHAR) DT(signed_char, B_SCHAR) DT(unsigned_char, B_UCHAR) DT(byte, B_BYTE) DT(short, B_SHORT)
DT(unsigned_short, B_USHORT) DT(int, B_INT) DT(unsigned, B_UINT) DT(long, B_LONG) DT(unsigned_long, B_ULONG)
DT(long_long, B_LL) DT(unsigned_long_long, B_ULL) DT(float, B_FLOAT) DT(double, B_DOUBLE)
DT(long_double, B_LDOUBLE) DT(c_bool, B_BOOL) DT(c_float_complex, B_CF) DT(c_double_complex, B_CD)
DT(packed, B_PACKED) DT(double_int, B_DI) DT(float_int, B_FI) DT(2int, B_2I) DT(long_int, B_LI)
#define OPD(n, i) vmpi_op vmpi_op_##n{#n, i, nullptr, true, false};
OPD(max, 0) OPD(min, 1) OPD(sum, 2) OPD(prod, 3) OPD(land, 4) OPD(band, 5) OPD(lor, 6) OPD(bor, 7) OPD(lxor, 8)
OPD(bxor, 9) OPD(maxloc, 10) OPD(minloc, 11) OPD(replace, 12)
vmpi_comm vmpi_comm_world, vmpi_comm_self;
vmpi_group vmpi_group_empty;
vmpi_errhandler vmpi_errors_return{1}, vmpi_errors_fatal{0};
}

// ------------------------------------------------------------------ helpers
#define NEEDRUN() do { if (!inRun()) { fprintf(stderr, "MPI call outside run: %s\n", __func__); _exit(97); } } while (0)
#define MPIERR(...) vfail("mpi-error", std::string(__func__) + ": " + sfmt(__VA_ARGS__))
static std::vector<vmpi_comm> selfComm;

static vmpi_comm* C(MPI_Comm c, const char* fn) {
  if (!inRun()) { fprintf(stderr, "MPI call outside run: %s\n", fn); _exit(97); }
  if (c == &vmpi_comm_world) return c;
  if (c == &vmpi_comm_self) return &selfComm[W.cur];
  if (!c) vfail("mpi-error", std::string(fn) + ": MPI_COMM_NULL");
  if (!W.commSet.count(c)) vfail("mpi-error", std::string(fn) + ": invalid communicator handle");
  if (c->freedBy.count(W.cur)) vfail("mpi-error", std::string(fn) + ": communicator was freed");
  if (!c->rankOf.count(W.cur)) vfail("mpi-error", std::string(fn) + ": calling rank is not in the communicator");
  return c;
}
#define COMM(c) C(c, __func__)
static int crank(vmpi_comm* c) { return c->rankOf.at(W.cur); }
static vmpi_comm* newComm(const std::vector<int>& m) {
  auto* c = new vmpi_comm; c->id = W.nextComm++; c->setMembers(m); W.comms.push_back(c); W.commSet.insert(c); return c;
}
// set while a user reduction runs: the datatype it is given may belong to a rank that has moved on
static bool inUserOp = false;
static void checkType(MPI_Datatype t, const char* fn, bool needCommit = true) {
  if (!t) vfail("mpi-error", std::string(fn) + ": MPI_DATATYPE_NULL");
  if (t->freed && !inUserOp) vfail("mpi-error", std::string(fn) + ": datatype was freed");
  if (needCommit && !t->committed) vfail("mpi-error", std::string(fn) + ": datatype not committed");
}
static void checkBuf(const void* b, long count, MPI_Datatype t, const char* fn) {
  if (count < 0) vfail("mpi-error", std::string(fn) + sfmt(": negative count %ld", count));
  checkType(t, fn);
  (void)b;
}
static std::vector<char> packFrom(int rank, const void* buf, long count, MPI_Datatype t) {
  std::vector<char> out(t->size * (size_t)count);
  char* o = out.data();
  if (t->segs.size() == 1 && t->segs[0].off == 0 && (ptrdiff_t)t->size == t->extent()) {
    if (!out.empty()) memcpy(o, xlate(rank, buf, out.size()), out.size());
    return out;
  }
  for (long c = 0; c < count; ++c)
    for (auto& s : t->segs) {
      size_t len = s.n * vmpi_basic_size[s.basic];
      if (t->basic >= 0) len = t->size;
      const char* src = (const char*)buf + c * t->extent() + s.off;
      memcpy(o, xlate(rank, src, len), len); o += len;
    }
  return out;
}
// unpacks at most bytes of data
static void unpackTo(int rank, void* buf, MPI_Datatype t, const char* data, size_t bytes) {
  if (bytes == 0) return;
  if (t->segs.size() == 1 && t->segs[0].off == 0 && (ptrdiff_t)t->size == t->extent()) {
    memcpy(xlate(rank, buf, bytes), data, bytes); return;
  }
  for (long c = 0; bytes > 0; ++c) {
    if (t->segs.empty()) return;
    for (auto& s : t->segs) {
      size_t len = s.n * vmpi_basic_size[s.basic];
      if (t->basic >= 0) len = t->size;
      len = std::min(len, bytes);
      char* dst = (char*)buf + c * t->extent() + s.off;
      memcpy(xlate(rank, dst, len), data, len); data += len; bytes -= len;
      if (!bytes) return;
    }
  }
}
typedef std::vector<std::pair<int, long>> Sig;
static Sig sigOf(MPI_Datatype t, long count) {
  Sig one, out;
  for (auto& s : t->segs) { if (!one.empty() && one.back().first == s.basic) one.back().second += s.n; else one.push_back({s.basic, s.n}); }
  if (one.size() == 1) { out = one; out[0].second *= count; if (!count) out.clear(); return out; }
  for (long c = 0; c < count && out.size() < 4096; ++c)
    for (auto& p : one) { if (!out.empty() && out.back().first == p.first) out.back().second += p.second; else out.push_back(p); }
  return out;
}
static int normB(int b) {
  // identical representation classes; MPI_BYTE/PACKED match anything
  switch (b) {
    case B_LL: return B_LONG; case B_ULL: return B_ULONG; default: return b;
  }
}
static bool sigPrefixOk(const Sig& s, const Sig& r) {
  size_t i = 0, j = 0; long si = 0, rj = 0;
  while (i < s.size() && j < r.size()) {
    int a = normB(s[i].first), b = normB(r[j].first);
    if (a == B_BYTE || b == B_BYTE || a == B_PACKED || b == B_PACKED) return true;
    if (a != b) return false;
    long n = std::min(s[i].second - si, r[j].second - rj);
    si += n; rj += n;
    if (si == s[i].second) { ++i; si = 0; }
    if (rj == r[j].second) { ++j; rj = 0; }
  }
  return i >= s.size();
}
static void setStatus(MPI_Status* st, const MPI_Status& v) { if (st) { int e = st->MPI_ERROR; *st = v; (void)e; st->MPI_ERROR = MPI_SUCCESS; } }
static MPI_Status emptyStatus() { MPI_Status s{}; s.MPI_SOURCE = MPI_ANY_SOURCE; s.MPI_TAG = MPI_ANY_TAG; s.MPI_ERROR = 0; return s; }
static MPI_Status procNullStatus() { MPI_Status s{}; s.MPI_SOURCE = MPI_PROC_NULL; s.MPI_TAG = MPI_ANY_TAG; return s; }

// ------------------------------------------------------------------ point to point engine
static bool canMatch(const vmpi_request* r, const Msg* m) {
  return r->comm == m->comm && r->owner == m->dstW && (r->peer == MPI_ANY_SOURCE || r->peer == m->src) &&
         (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}
static void captureMsg(Msg& m) {
  if (m.captured) return;
  m.data = packFrom(m.srcW, m.buf, m.count, m.type); m.captured = true;
}
static void doMatch(vmpi_request* r, std::shared_ptr<Msg> m) {
  captureMsg(*m);
  m->matched = true; r->matched = true;
  ++W.res.matches; ++W.event;
  W.msgs.erase(std::find(W.msgs.begin(), W.msgs.end(), m));
  W.recvs.erase(std::find(W.recvs.begin(), W.recvs.end(), r));
  size_t cap = (size_t)r->count * r->type->size;
  if (m->data.size() > cap) {
    W.res.ok = W.res.ok && false;
    W.res.kind = "mpi-truncate"; W.aborted = true;
    W.res.msg = sfmt("message of %zu bytes from %d to %d tag %d exceeds receive buffer of %zu bytes", m->data.size(), m->srcW, m->dstW, m->tag, cap);
    return;
  }
  if (W.o.checkTypes && !sigPrefixOk(m->sig, sigOf(r->type, r->count))) {
    W.res.ok = false; W.res.kind = "mpi-type"; W.aborted = true;
    W.res.msg = sfmt("type mismatch of message from %d to %d tag %d: sent %s, received %s", m->srcW, m->dstW, m->tag, m->type->name.c_str(), r->type->name.c_str());
    return;
  }
  r->st.MPI_SOURCE = m->src; r->st.MPI_TAG = m->tag; r->st._ucount = m->data.size(); r->st.MPI_ERROR = 0;
  r->data = m->data; r->complete = true;
  if (!W.o.lateDelivery) { unpackTo(r->owner, r->buf, r->type, r->data.data(), r->data.size()); r->delivered = true; }
  if (m->req) { m->req->complete = true; if (m->req->freed) { W.live.erase(m->req); delete m->req; m->req = nullptr; } }
}
// earliest message from src (comm rank) matching r; nullptr if an earlier posted receive may take it
static std::shared_ptr<Msg> firstFrom(const vmpi_request* r, int src) {
  for (auto& m : W.msgs) if (m->src == src && canMatch(r, m.get())) {
    for (auto* e : W.recvs) { if (e == r) break; if (canMatch(e, m.get())) return nullptr; }
    return m;
  }
  return nullptr;
}
static void progressDet(int dstW) {
  bool again = true;
  while (again && !W.aborted) {
    again = false;
    for (auto* r : W.recvs) {
      if (r->owner != dstW || r->peer == MPI_ANY_SOURCE) continue;
      auto m = firstFrom(r, r->peer);
      if (m) { doMatch(r, m); again = true; break; }
    }
  }
}
static void abortIfFailed() { if (W.aborted) { me().st = DONE; vfail(W.res.kind, W.res.msg); } }

namespace vmpi {
bool quiescentWild() {
  struct Opt { vmpi_request* r; size_t probe; std::shared_ptr<Msg> m; };
  std::vector<Opt> opts;
  for (auto* r : W.recvs) {
    if (r->peer != MPI_ANY_SOURCE) continue;
    for (int s = 0; s < (int)r->comm->members.size(); ++s) { auto m = firstFrom(r, s); if (m) opts.push_back({r, 0, m}); }
    if (!W.o.wildChoice && !opts.empty()) break;
  }
  for (size_t k = 0; k < W.probes.size(); ++k) {
    auto& p = W.probes[k];
    vmpi_request tmp{RQ_RECV, p.rank}; tmp.comm = p.comm; tmp.peer = p.src; tmp.tag = p.tag;
    std::set<int> seen;
    for (auto& m : W.msgs) if (!seen.count(m->src) && canMatch(&tmp, m.get())) {
      bool taken = false;
      for (auto* e : W.recvs) if (canMatch(e, m.get())) taken = true;
      if (!taken) { seen.insert(m->src); opts.push_back({nullptr, k, m}); }
    }
  }
  if (opts.empty()) return false;
  int c = W.o.wildChoice ? chooseK('w', (int)opts.size(), W.o.wildCost) : 0;
  if (opts[c].r) { int d = opts[c].r->owner; doMatch(opts[c].r, opts[c].m); progressDet(d); }
  else { *W.probes[opts[c].probe].out = opts[c].m; W.probes.erase(W.probes.begin() + opts[c].probe); ++W.res.matches; }
  return true;
}
void ompReset();
void resetMpi() {
  ompReset();
  for (auto* c : W.comms) delete c;
  W.comms.clear(); W.commSet.clear();
  for (auto* t : W.types) delete t;
  W.types.clear();
  for (auto* f : W.files) { if (f->fd >= 0) close(f->fd); delete f; }
  W.files.clear(); W.fileSet.clear();
  for (auto* r : W.live) delete r;
  W.live.clear(); W.msgs.clear(); W.recvs.clear(); W.probes.clear(); W.postSeq = W.msgSeq = 0; W.nextComm = 2;
  std::vector<int> all(W.o.nranks);
  std::iota(all.begin(), all.end(), 0);
  vmpi_comm_world.id = 0; vmpi_comm_world.setMembers(all);
  selfComm.clear(); selfComm.resize(W.o.nranks);
  for (int i = 0; i < W.o.nranks; ++i) { selfComm[i].id = -1 - i; selfComm[i].setMembers({i}); }
}
void finishMpi() {
  if (!W.o.leakCheck) return;
  auto bad = [&](const std::string& k, const std::string& m) { if (W.res.ok) { W.res.ok = false; W.res.kind = k; W.res.msg = m; } };
  for (auto& m : W.msgs) { bad("leftover-message", sfmt("message from rank %d to rank %d tag %d (%zu bytes) was never received", m->srcW, m->dstW, m->tag, m->bytes)); return; }
  std::vector<vmpi_request*> l(W.live.begin(), W.live.end());
  std::sort(l.begin(), l.end(), [](auto* a, auto* b) { return std::make_pair(a->owner, a->postSeq) < std::make_pair(b->owner, b->postSeq); });
  for (auto* r : l) { if (r->persistent && !r->active) continue; if (r->freed) continue; bad("leftover-request", sfmt("request of rank %d was never completed: %s", r->owner, r->descr.c_str())); return; }
  for (auto* f : W.files) if (f->nclosed < (int)f->comm->members.size()) { bad("leftover-file", "file " + f->name + " was never closed"); return; }
  auto openColl = [&](vmpi_comm* c) { for (auto& kv : c->colls) if (kv.second->narrived < (int)c->members.size()) bad("leftover-collective", sfmt("collective on communicator of size %zu not called by all its ranks", c->members.size())); };
  openColl(&vmpi_comm_world);
  for (auto* c : W.comms) openColl(c);
}
}  // namespace vmpi

static vmpi_request* newReq(ReqKind k, const std::string& d) {
  auto* r = new vmpi_request{k, W.cur};
  r->postSeq = W.postSeq++; r->descr = d; W.live.insert(r);
  return r;
}
static const char* modeName(int m) { return m == 2 ? "Ssend" : "Send"; }
// mode 0 standard, 1 buffered, 2 synchronous
static vmpi_request* postSend(const void* buf, int count, MPI_Datatype t, int dst, int tag, vmpi_comm* c, int mode, const char* fn) {
  checkBuf(buf, count, t, fn);
  if (tag < 0) vfail("mpi-error", std::string(fn) + sfmt(": invalid tag %d", tag));
  if (dst == MPI_PROC_NULL) { auto* r = newReq(RQ_SEND, fn); r->complete = true; r->st = procNullStatus(); return r; }
  if (dst < 0 || dst >= (int)c->members.size()) vfail("mpi-error", std::string(fn) + sfmt(": invalid destination rank %d", dst));
  point(PT_SEND, fn);
  auto m = std::make_shared<Msg>();
  m->comm = c; m->src = crank(c); m->dst = dst; m->tag = tag; m->seq = W.msgSeq++; m->srcW = W.cur; m->dstW = c->members[dst];
  m->buf = buf; m->count = count; m->type = t; m->bytes = t->size * (size_t)count; m->sig = sigOf(t, count);
  bool eager = mode == 1 || (mode == 0 && !W.o.rendezvous);
  if (mode == 0 && W.o.sendChoice && chooseK('m', 2, 1)) eager = !eager;
  m->eager = eager;
  auto* r = newReq(RQ_SEND, sfmt("%s to %d tag %d", modeName(mode), m->dstW, tag));
  r->msg = m; r->comm = c; r->peer = dst; r->tag = tag;
  if (eager) { captureMsg(*m); r->complete = true; } else m->req = r;
  W.msgs.push_back(m); ++W.event;
  progressDet(m->dstW); abortIfFailed();
  return r;
}
static vmpi_request* postRecv(void* buf, int count, MPI_Datatype t, int src, int tag, vmpi_comm* c, const char* fn) {
  checkBuf(buf, count, t, fn);
  if (tag < 0 && tag != MPI_ANY_TAG) vfail("mpi-error", std::string(fn) + sfmt(": invalid tag %d", tag));
  if (src == MPI_PROC_NULL) { auto* r = newReq(RQ_RECV, fn); r->complete = true; r->delivered = true; r->st = procNullStatus(); r->type = t; return r; }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) vfail("mpi-error", std::string(fn) + sfmt(": invalid source rank %d", src));
  point(PT_RECV, fn);
  auto* r = newReq(RQ_RECV, sfmt("Recv from %d tag %d", src == MPI_ANY_SOURCE ? -1 : c->members[src], tag));
  r->comm = c; r->buf = buf; r->count = count; r->type = t; r->peer = src; r->tag = tag;
  W.recvs.push_back(r);
  progressDet(W.cur); abortIfFailed();
  return r;
}

// ------------------------------------------------------------------ collectives engine
static const char* collName[] = {"Barrier", "Bcast", "Gather", "Scatter", "Allgather", "Alltoall", "Reduce", "Allreduce", "Reduce_scatter", "Scan", "Exscan", "Comm_split", "Comm_dup", "Comm_create", "Cart_create", "Cart_sub", "Comm_free", "File_open", "File_close", "File_set_view", "File_write_all", "File_read_all", "File_collective", "Finalize"};
static std::shared_ptr<Coll> collPost(vmpi_comm* c, CollKind k, CollArg&& arg, int root, bool nonblock, const char* fn) {
  point(PT_COLL, fn);
  int r = crank(c);
  long s = c->seq[r]++;
  auto& p = c->colls[s];
  if (!p) { p = std::make_shared<Coll>(); p->kind = k; p->root = root; p->nonblock = nonblock; p->comm = c; p->seq = s; p->a.resize(c->members.size()); }
  if (p->kind != k) vfail("collective-mismatch", sfmt("%s called while other ranks of the communicator called %s", fn, collName[p->kind]));
  if (p->nonblock != nonblock) vfail("collective-mismatch", sfmt("%s: blocking and non-blocking calls of the same collective", fn));
  if (p->root != root) vfail("collective-mismatch", sfmt("%s: different roots %d and %d", fn, root, p->root));
  arg.arrived = true; arg.nonblock = nonblock; arg.root = root;
  p->a[r] = std::move(arg);
  ++p->narrived; ++W.res.colls; ++W.event;
  return p;
}
static void capture(Coll& c, int r) {
  auto& a = c.a[r];
  if (a.captured || !a.arrived) return;
  int w = c.comm->members[r]; int n = (int)c.comm->members.size();
  switch (c.kind) {
    case C_BCAST: if (r == c.root) a.contrib = packFrom(w, a.sbuf, a.scount, a.stype); break;
    case C_GATHER: case C_ALLGATHER:
      if (a.sbuf == MPI_IN_PLACE) {
        MPI_Datatype t = a.rtype; long cnt = a.vv ? a.rcounts[r] : a.rcount; long disp = a.vv ? a.rdispls[r] : (long)r * a.rcount;
        a.contrib = packFrom(w, (char*)a.rbuf + disp * t->extent(), cnt, t);
      } else a.contrib = packFrom(w, a.sbuf, a.scount, a.stype);
      break;
    case C_SCATTER:
      if (r == c.root) { a.parts.resize(n);
        for (int i = 0; i < n; ++i) { long cnt = a.vv ? a.scounts[i] : a.scount; long disp = a.vv ? a.sdispls[i] : (long)i * a.scount;
          a.parts[i] = packFrom(w, (char*)a.sbuf + disp * a.stype->extent(), cnt, a.stype); } }
      break;
    case C_ALLTOALL: a.parts.resize(n);
      for (int i = 0; i < n; ++i) { bool ip = a.sbuf == MPI_IN_PLACE; MPI_Datatype t = ip ? a.rtype : a.stype; const char* b = ip ? (char*)a.rbuf : (char*)a.sbuf;
        long cnt = a.vv ? (ip ? a.rcounts[i] : a.scounts[i]) : (ip ? a.rcount : a.scount); long disp = a.vv ? (ip ? a.rdispls[i] : a.sdispls[i]) : (long)i * cnt;
        a.parts[i] = packFrom(w, b + disp * t->extent(), cnt, t); }
      break;
    case C_REDUCE: case C_ALLREDUCE: case C_SCAN: case C_EXSCAN: case C_REDSCAT:
      a.contrib = packFrom(w, a.sbuf == MPI_IN_PLACE ? a.rbuf : a.sbuf, a.rcount, a.rtype); break;
    default: break;
  }
  a.captured = true;
}
static bool sat(Coll& c, int r) {
  int n = (int)c.a.size();
  bool all = c.narrived == n;
  if (W.o.syncColl || all) return all;
  switch (c.kind) {
    case C_BCAST: case C_SCATTER: return r == c.root || c.a[c.root].arrived;
    case C_GATHER: case C_REDUCE: return r != c.root;
    case C_SCAN: for (int i = 0; i < r; ++i) if (!c.a[i].arrived) return false; return true;
    case C_EXSCAN: for (int i = 0; i < r; ++i) if (!c.a[i].arrived) return false; return true;
    default: return false;
  }
}
template <class T> static void opArith(int id, const T* a, T* b, long n) {
  for (long i = 0; i < n; ++i) switch (id) {
      case 0: b[i] = a[i] > b[i] ? a[i] : b[i]; break;
      case 1: b[i] = a[i] < b[i] ? a[i] : b[i]; break;
      case 2: b[i] = (T)(a[i] + b[i]); break;
      case 3: b[i] = (T)(a[i] * b[i]); break;
      case 4: b[i] = (T)(a[i] && b[i]); break;
      case 6: b[i] = (T)(a[i] || b[i]); break;
      case 8: b[i] = (T)(!a[i] != !b[i]); break;
      case 12: b[i] = a[i]; break;
      default: vfail("mpi-error", "reduction operator not defined for this type");
    }
}
template <class T> static void opInt(int id, const T* a, T* b, long n) {
  if (id == 5) { for (long i = 0; i < n; ++i) b[i] &= a[i]; return; }
  if (id == 7) { for (long i = 0; i < n; ++i) b[i] |= a[i]; return; }
  if (id == 9) { for (long i = 0; i < n; ++i) b[i] ^= a[i]; return; }
  opArith(id, a, b, n);
}
template <class T> static void opCplx(int id, const T* a, T* b, long n) {
  for (long i = 0; i < n; ++i) { if (id == 2) b[i] += a[i]; else if (id == 3) b[i] *= a[i]; else vfail("mpi-error", "reduction operator not defined for complex"); }
}
template <class T> static void opLoc(int id, const char* ac, char* bc, long n, size_t stride, size_t ioff) {
  for (long i = 0; i < n; ++i) {
    T a, b; int ai, bi; memcpy(&a, ac + i * stride, sizeof a); memcpy(&b, bc + i * stride, sizeof b);
    memcpy(&ai, ac + i * stride + ioff, 4); memcpy(&bi, bc + i * stride + ioff, 4);
    bool takeA = id == 10 ? (a > b || (a == b && ai < bi)) : (a < b || (a == b && ai < bi));
    if (takeA) memcpy(bc + i * stride, ac + i * stride, stride);
  }
}
static void applyBuiltin(int id, int basic, const char* in, char* inout, long n) {
  if ((id == 10 || id == 11) && basic < B_DI) vfail("mpi-error", "MAXLOC/MINLOC need a pair type");
  switch (basic) {
    case B_CHAR: case B_SCHAR: opInt(id, (const signed char*)in, (signed char*)inout, n); break;
    case B_UCHAR: opInt(id, (const unsigned char*)in, (unsigned char*)inout, n); break;
    case B_BYTE: opInt(id, (const unsigned char*)in, (unsigned char*)inout, n); break;
    case B_SHORT: opInt(id, (const short*)in, (short*)inout, n); break;
    case B_USHORT: opInt(id, (const unsigned short*)in, (unsigned short*)inout, n); break;
    case B_INT: opInt(id, (const int*)in, (int*)inout, n); break;
    case B_UINT: opInt(id, (const unsigned*)in, (unsigned*)inout, n); break;
    case B_LONG: opInt(id, (const long*)in, (long*)inout, n); break;
    case B_ULONG: opInt(id, (const unsigned long*)in, (unsigned long*)inout, n); break;
    case B_LL: opInt(id, (const long long*)in, (long long*)inout, n); break;
    case B_ULL: opInt(id, (const unsigned long long*)in, (unsigned long long*)inout, n); break;
    case B_FLOAT: opArith(id, (const float*)in, (float*)inout, n); break;
    case B_DOUBLE: opArith(id, (const double*)in, (double*)inout, n); break;
    case B_LDOUBLE: opArith(id, (const long double*)in, (long double*)inout, n); break;
    case B_BOOL: { auto* a = (const unsigned char*)in; auto* b = (unsigned char*)inout; 
      if (id != 4 && id != 6 && id != 8 && id != 12) vfail("mpi-error", "arithmetic reduction on logical type");
      opInt(id, a, b, n); } break;
    case B_CF: opCplx(id, (const std::complex<float>*)in, (std::complex<float>*)inout, n); break;
    case B_CD: opCplx(id, (const std::complex<double>*)in, (std::complex<double>*)inout, n); break;
    case B_2I: opLoc<int>(id, in, inout, n, 8, 4); break;
    case B_FI: opLoc<float>(id, in, inout, n, 8, 4); break;
    default: vfail("mpi-error", "reduction not implemented for this type");
  }
}
// inout = in op inout on packed data
static void applyOp(MPI_Op op, MPI_Datatype t, long count, const std::vector<char>& in, std::vector<char>& inout) {
  if (!op) vfail("mpi-error", "invalid reduction operator");
  if (in.size() != inout.size()) vfail("collective-mismatch", sfmt("reduction with different message sizes (%zu and %zu bytes)", in.size(), inout.size()));
  if (count == 0) return;
  if (!op->fn) {
    if (t->basic < 0) {
      vfail("mpi-error", "builtin reduction on a derived datatype");
    }
    applyBuiltin(op->id, t->basic, in.data(), inout.data(), count); return;
  }
  // user function on buffers with the layout of the datatype
  ptrdiff_t lo = std::min<ptrdiff_t>(0, t->tlb), hi = std::max(t->tub, t->ub);
  size_t span = (size_t)(hi - lo) + (size_t)t->extent() * (size_t)(count - 1) + 64;
  std::vector<char> A(span, 0), B(span, 0);
  unpackTo(-2, A.data() - lo, t, in.data(), in.size());
  unpackTo(-2, B.data() - lo, t, inout.data(), inout.size());
  int n = (int)count; MPI_Datatype tt = t;
  inUserOp = true;
  op->fn(A.data() - lo, B.data() - lo, &n, &tt);
  inUserOp = false;
  inout = packFrom(-2, B.data() - lo, count, t);
}
static void reduceRange(Coll& c, int lo, int hi, std::vector<char>& out) {
  auto& a0 = c.a[lo];
  for (int i = lo; i <= hi; ++i) {
    capture(c, i);
    if (c.a[i].op != a0.op) {
      // user operators are created per rank: compare by function
      if (!(c.a[i].op && a0.op && c.a[i].op->fn && c.a[i].op->fn == a0.op->fn)) vfail("collective-mismatch", "different reduction operators");
    }
    if (W.o.checkTypes && sigOf(c.a[i].rtype, c.a[i].rcount) != sigOf(a0.rtype, a0.rcount))
      vfail("collective-mismatch", sfmt("%s: different types or counts (%d x %s and %d x %s)", collName[c.kind], a0.rcount, a0.rtype->name.c_str(), c.a[i].rcount, c.a[i].rtype->name.c_str()));
  }
  if (W.o.reduceOrder == 1 && a0.op && a0.op->commute) {
    out = c.a[lo].contrib;
    for (int i = lo + 1; i <= hi; ++i) applyOp(a0.op, a0.rtype, a0.rcount, c.a[i].contrib, out);
  } else {
    out = c.a[hi].contrib;
    for (int i = hi - 1; i >= lo; --i) applyOp(a0.op, a0.rtype, a0.rcount, c.a[i].contrib, out);
  }
}
static void buildComms(Coll& c);
static void deliverRaw(Coll& c, int r, void* buf, long disp, long cnt, MPI_Datatype t, const std::vector<char>& d, bool exact) {
  size_t cap = (size_t)cnt * t->size;
  if (d.size() > cap) vfail("mpi-truncate", sfmt("%s: %zu bytes for a receive buffer of %zu bytes", collName[c.kind], d.size(), cap));
  if (exact && d.size() != cap) vfail("collective-mismatch", sfmt("%s: %zu bytes sent, %zu bytes expected", collName[c.kind], d.size(), cap));
  unpackTo(c.comm->members[r], (char*)buf + disp * t->extent(), t, d.data(), d.size());
}
static void typeCheck2(Coll& c, MPI_Datatype st, long sc, MPI_Datatype rt, long rc) {
  if (W.o.checkTypes && st && rt && !sigPrefixOk(sigOf(st, sc), sigOf(rt, rc)))
    vfail("mpi-type", sfmt("%s: type mismatch (%s vs %s)", collName[c.kind], st->name.c_str(), rt->name.c_str()));
}
static void deliver(Coll& c, int r) {
  auto& a = c.a[r];
  if (a.delivered) return;
  a.delivered = true;
  int n = (int)c.a.size();
  capture(c, r);
  switch (c.kind) {
    case C_BCAST: {
      if (r == c.root) break;
      capture(c, c.root); auto& ra = c.a[c.root];
      typeCheck2(c, ra.stype, ra.scount, a.stype, a.scount);
      deliverRaw(c, r, (void*)a.sbuf, 0, a.scount, a.stype, ra.contrib, true);
    } break;
    case C_GATHER: if (r != c.root) break; /* fallthrough */
    case C_ALLGATHER:
      for (int i = 0; i < n; ++i) {
        capture(c, i);
        long cnt = a.vv ? a.rcounts[i] : a.rcount; long disp = a.vv ? a.rdispls[i] : (long)i * a.rcount;
        if (i == r && a.sbuf == MPI_IN_PLACE) continue;
        if (c.a[i].sbuf != MPI_IN_PLACE) typeCheck2(c, c.a[i].stype, c.a[i].scount, a.rtype, cnt);
        deliverRaw(c, r, a.rbuf, disp, cnt, a.rtype, c.a[i].contrib, true);
      }
      break;
    case C_SCATTER: {
      capture(c, c.root);
      if (r == c.root && a.rbuf == MPI_IN_PLACE) break;
      typeCheck2(c, c.a[c.root].stype, c.a[c.root].vv ? c.a[c.root].scounts[r] : c.a[c.root].scount, a.rtype, a.rcount);
      deliverRaw(c, r, a.rbuf, 0, a.rcount, a.rtype, c.a[c.root].parts[r], true);
    } break;
    case C_ALLTOALL:
      for (int i = 0; i < n; ++i) capture(c, i);
      for (int i = 0; i < n; ++i) { long cnt = a.vv ? a.rcounts[i] : a.rcount; long disp = a.vv ? a.rdispls[i] : (long)i * a.rcount;
        deliverRaw(c, r, a.rbuf, disp, cnt, a.rtype, c.a[i].parts[r], true); }
      break;
    case C_REDUCE: if (r != c.root) break;
      if (!c.computed) { reduceRange(c, 0, n - 1, c.result); c.computed = true; }
      deliverRaw(c, r, a.rbuf, 0, a.rcount, a.rtype, c.result, true); break;
    case C_ALLREDUCE:
      if (!c.computed) { reduceRange(c, 0, n - 1, c.result); c.computed = true; }
      deliverRaw(c, r, a.rbuf, 0, a.rcount, a.rtype, c.result, true); break;
    case C_REDSCAT: {
      if (!c.computed) { reduceRange(c, 0, n - 1, c.result); c.computed = true; }
      long off = 0; for (int i = 0; i < r; ++i) off += a.rcounts[i];
      std::vector<char> part(c.result.begin() + off * a.rtype->size, c.result.begin() + (off + a.rcounts[r]) * a.rtype->size);
      deliverRaw(c, r, a.rbuf, 0, a.rcounts[r], a.rtype, part, true);
    } break;
    case C_SCAN: { std::vector<char> o; reduceRange(c, 0, r, o); deliverRaw(c, r, a.rbuf, 0, a.rcount, a.rtype, o, true); } break;
    case C_EXSCAN: if (r > 0) { std::vector<char> o; reduceRange(c, 0, r - 1, o); deliverRaw(c, r, a.rbuf, 0, a.rcount, a.rtype, o, true); } break;
    default: break;
  }
  // retire
  bool all = c.narrived == n;
  for (auto& x : c.a) if (!x.delivered) all = false;
  if (all && c.kind <= C_EXSCAN) c.comm->colls.erase(c.seq);
}
static void collRun(vmpi_comm* c, CollKind k, CollArg&& arg, int root, const char* fn) {
  auto p = collPost(c, k, std::move(arg), root, false, fn);
  int r = crank(c);
  capture(*p, r);
  block([p, r] { return sat(*p, r); }, sfmt("%s (comm size %zu)", fn, c->members.size()));
  deliver(*p, r);
}
static vmpi_request* collStart(vmpi_comm* c, CollKind k, CollArg&& arg, int root, const char* fn) {
  auto p = collPost(c, k, std::move(arg), root, true, fn);
  int r = crank(c);
  if (!W.o.lateDelivery) capture(*p, r);
  auto* q = newReq(RQ_COLL, sfmt("%s (comm size %zu)", fn, c->members.size()));
  q->coll = p; q->cr = r; q->st = emptyStatus();
  return q;
}

// ------------------------------------------------------------------ requests
static void checkReq(MPI_Request r, const char* fn) {
  if (!r) return;
  if (!W.live.count(r)) vfail("mpi-error", std::string(fn) + ": invalid request handle (uninitialised, already completed or freed)");
  if (r->owner != W.cur) vfail("mpi-error", std::string(fn) + ": request of another rank");
}
static bool completable(vmpi_request* r) {
  if (!r) return true;
  if (r->persistent && !r->active) return true;
  if (r->kind == RQ_COLL) return sat(*r->coll, r->cr);
  return r->complete;
}
static void completeReq(MPI_Request* rp, MPI_Status* st) {
  vmpi_request* r = *rp;
  if (!r) { setStatus(st, emptyStatus()); return; }
  if (r->persistent && !r->active) { setStatus(st, emptyStatus()); return; }
  if (r->kind == RQ_COLL) deliver(*r->coll, r->cr);
  if (r->kind == RQ_RECV && !r->delivered) { unpackTo(r->owner, r->buf, r->type, r->data.data(), r->data.size()); r->delivered = true; }
  setStatus(st, r->kind == RQ_SEND ? emptyStatus() : r->st);
  if (r->persistent) { r->active = false; return; }
  W.live.erase(r); delete r; *rp = nullptr;
  ++W.event;
}
static void waitReq(MPI_Request* rp, MPI_Status* st, const char* fn) {
  NEEDRUN();
  checkReq(*rp, fn);
  vmpi_request* r = *rp;
  if (r) block([r] { return completable(r); }, std::string(fn) + " " + r->descr);
  completeReq(rp, st);
}

extern "C" {
// ---------------- environment
int MPI_Init(int*, char***) { NEEDRUN(); me().initialized = true; return 0; }
int MPI_Init_thread(int*, char***, int req, int* prov) { NEEDRUN(); me().initialized = true; *prov = req; return 0; }
int MPI_Initialized(int* f) { *f = inRun() ? 1 : 0; return 0; }
int MPI_Finalized(int* f) { *f = inRun() && me().finalized ? 1 : 0; return 0; }
int MPI_Finalize(void) { NEEDRUN(); collRun(&vmpi_comm_world, C_FINALIZE, CollArg(), -1, __func__); me().finalized = true; return 0; }
int MPI_Abort(MPI_Comm, int c) { if (W.expectExit) vfail("expected-exit", sfmt("MPI_Abort(%d)", c)); vfail("mpi-abort", sfmt("MPI_Abort called with code %d", c)); }
double MPI_Wtime(void) { W.clock += 1e-6; return W.clock; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "vnode"); *l = 5; return 0; }
int MPI_Error_string(int e, char* s, int* l) { *l = snprintf(s, MPI_MAX_ERROR_STRING, "error %d", e); return 0; }
int MPI_Error_class(int e, int* c) { *c = e; return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Is_thread_main(int* f) { *f = 1; return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char* s, int* l) { *l = sprintf(s, "vmpi"); return 0; }
int MPI_Pcontrol(const int, ...) { return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { *(void**)p = malloc(n); return 0; }
int MPI_Free_mem(void* p) { free(p); return 0; }

// ---------------- point to point
static int sendBlocking(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, int mode, const char* fn) {
  MPI_Request r = postSend(b, n, t, d, tag, C(c, fn), mode, fn);
  waitReq(&r, nullptr, fn);
  return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendBlocking(b, n, t, d, tag, c, 0, __func__); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendBlocking(b, n, t, d, tag, c, 0, __func__); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendBlocking(b, n, t, d, tag, c, 2, __func__); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendBlocking(b, n, t, d, tag, c, 1, __func__); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { *r = postSend(b, n, t, d, tag, COMM(c), 0, __func__); return 0; }
int MPI_Irsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { *r = postSend(b, n, t, d, tag, COMM(c), 0, __func__); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { *r = postSend(b, n, t, d, tag, COMM(c), 2, __func__); return 0; }
int MPI_Ibsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { *r = postSend(b, n, t, d, tag, COMM(c), 1, __func__); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  MPI_Request r = postRecv(b, n, t, s, tag, COMM(c), __func__); waitReq(&r, st, __func__); return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) { *r = postRecv(b, n, t, s, tag, COMM(c), __func__); return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* stt) {
  MPI_Request rr = postRecv(rb, rn, rt, s, rtag, COMM(c), __func__);
  MPI_Request sr = postSend(sb, sn, st, d, stag, COMM(c), 0, __func__);
  waitReq(&sr, nullptr, __func__); waitReq(&rr, stt, __func__); return 0;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status* stt) {
  MPI_Request sr = postSend(b, n, t, d, stag, COMM(c), 1, __func__);
  MPI_Request rr = postRecv(b, n, t, s, rtag, COMM(c), __func__);
  waitReq(&sr, nullptr, __func__); waitReq(&rr, stt, __func__); return 0;
}
static std::shared_ptr<Msg> probeFind(int who, vmpi_comm* c, int src, int tag, std::vector<std::shared_ptr<Msg>>& all) {
  vmpi_request tmp{RQ_RECV, who}; tmp.comm = c; tmp.peer = src; tmp.tag = tag;
  std::set<int> seen; all.clear();
  for (auto& m : W.msgs) if (!seen.count(m->src) && canMatch(&tmp, m.get())) {
    bool taken = false;
    for (auto* e : W.recvs) if (canMatch(e, m.get())) taken = true;
    if (!taken) { seen.insert(m->src); all.push_back(m); }
  }
  return all.empty() ? nullptr : all[0];
}
static void statusOf(Msg& m, MPI_Status* st) { MPI_Status s{}; s.MPI_SOURCE = m.src; s.MPI_TAG = m.tag; s._ucount = m.bytes; setStatus(st, s); }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
  vmpi_comm* cc = COMM(c);
  if (src == MPI_PROC_NULL) { setStatus(st, procNullStatus()); return 0; }
  std::vector<std::shared_ptr<Msg>> all;
  if (src != MPI_ANY_SOURCE) {
    int who = W.cur;  // the predicate is evaluated by the scheduler
    block([&, who] { return probeFind(who, cc, src, tag, all) != nullptr; }, sfmt("Probe from %d tag %d", src, tag));
    auto m = probeFind(who, cc, src, tag, all);
    statusOf(*m, st); return 0;
  }
  auto out = std::make_shared<std::shared_ptr<Msg>>();
  W.probes.push_back({W.cur, cc, src, tag, out.get()});
  block([out] { return (bool)*out; }, sfmt("Probe from any tag %d", tag));
  statusOf(**out, st); return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  vmpi_comm* cc = COMM(c);
  *flag = 0;
  std::vector<std::shared_ptr<Msg>> all;
  probeFind(W.cur, cc, src, tag, all);
  if (!all.empty()) {
    int k = 0, n = W.o.wildChoice ? (int)all.size() : 1;
    if (W.o.testChoice) { k = chooseK('t', n + 1, 1); if (k == n) { spinYield("Iprobe"); return 0; } }
    else if (n > 1) k = chooseK('w', n, W.o.wildCost);
    *flag = 1; statusOf(*all[k], st); return 0;
  }
  spinYield(sfmt("Iprobe from %d tag %d", src, tag));
  return 0;
}
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message*, MPI_Status*) { MPIERR("not supported by vmpi"); }
int MPI_Mrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Status*) { MPIERR("not supported by vmpi"); }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) {
  checkType(t, __func__, false);
  if (t->size == 0) { *n = s->_ucount ? MPI_UNDEFINED : 0; return 0; }
  *n = s->_ucount % t->size ? MPI_UNDEFINED : (int)(s->_ucount / t->size); return 0;
}
int MPI_Get_elements(const MPI_Status* s, MPI_Datatype t, int* n) { size_t b = t->segs.empty() ? 1 : vmpi_basic_size[t->segs[0].basic]; *n = (int)(s->_ucount / b); return 0; }
int MPI_Wait(MPI_Request* r, MPI_Status* s) { waitReq(r, s, __func__); return 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) {
  NEEDRUN();
  for (int i = 0; i < n; ++i) checkReq(r[i], __func__);
  std::vector<MPI_Request> rr(r, r + n);
  std::string d;
  for (auto* q : rr) if (q && !completable(q)) { d = q->descr; break; }
  block([rr] { for (auto* q : rr) if (!completable(q)) return false; return true; }, "Waitall " + d);
  for (int i = 0; i < n; ++i) completeReq(&r[i], s ? &s[i] : nullptr);
  return 0;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* s) {
  NEEDRUN();
  std::vector<MPI_Request> rr;
  for (int i = 0; i < n; ++i) { checkReq(r[i], __func__); if (r[i] && !(r[i]->persistent && !r[i]->active)) rr.push_back(r[i]); }
  if (rr.empty()) { *idx = MPI_UNDEFINED; setStatus(s, emptyStatus()); return 0; }
  block([rr] { for (auto* q : rr) if (completable(q)) return true; return false; }, "Waitany");
  std::vector<int> c;
  for (int i = 0; i < n; ++i) if (r[i] && !(r[i]->persistent && !r[i]->active) && completable(r[i])) c.push_back(i);
  int k = c[W.o.testChoice ? chooseK('t', (int)c.size(), 1) : 0];
  *idx = k; completeReq(&r[k], s); return 0;
}
int MPI_Waitsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* s) {
  NEEDRUN();
  std::vector<MPI_Request> rr;
  for (int i = 0; i < n; ++i) { checkReq(r[i], __func__); if (r[i]) rr.push_back(r[i]); }
  if (rr.empty()) { *out = MPI_UNDEFINED; return 0; }
  block([rr] { for (auto* q : rr) if (completable(q)) return true; return false; }, "Waitsome");
  int k = 0;
  for (int i = 0; i < n; ++i) if (r[i] && completable(r[i])) { idx[k] = i; completeReq(&r[i], s ? &s[k] : nullptr); ++k; }
  *out = k; return 0;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* s) {
  NEEDRUN(); checkReq(*r, __func__);
  *flag = 0;
  if (!*r) { *flag = 1; setStatus(s, emptyStatus()); return 0; }
  if (completable(*r) && !(W.o.testChoice && chooseK('t', 2, 1))) { *flag = 1; completeReq(r, s); return 0; }
  spinYield("Test " + (*r)->descr);
  return 0;
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* s) {
  NEEDRUN(); *flag = 0;
  bool all = true;
  for (int i = 0; i < n; ++i) { checkReq(r[i], __func__); if (!completable(r[i])) all = false; }
  if (all && !(n > 0 && W.o.testChoice && chooseK('t', 2, 1))) { *flag = 1; for (int i = 0; i < n; ++i) completeReq(&r[i], s ? &s[i] : nullptr); return 0; }
  spinYield("Testall"); return 0;
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* flag, MPI_Status* s) {
  NEEDRUN(); *flag = 0; *idx = MPI_UNDEFINED;
  std::vector<int> c; bool any = false;
  for (int i = 0; i < n; ++i) { checkReq(r[i], __func__); if (r[i]) { any = true; if (completable(r[i])) c.push_back(i); } }
  if (!any) { *flag = 1; setStatus(s, emptyStatus()); return 0; }
  if (!c.empty()) { int k = W.o.testChoice ? chooseK('t', (int)c.size() + 1, 1) : 0; if (k < (int)c.size()) { *flag = 1; *idx = c[k]; completeReq(&r[c[k]], s); return 0; } }
  spinYield("Testany"); return 0;
}
int MPI_Testsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* s) {
  NEEDRUN();
  int k = 0; bool any = false, poss = false;
  for (int i = 0; i < n; ++i) { checkReq(r[i], __func__); if (r[i]) { any = true; if (completable(r[i])) poss = true; } }
  if (!any) { *out = MPI_UNDEFINED; return 0; }
  if (poss && !(W.o.testChoice && chooseK('t', 2, 1)))
    for (int i = 0; i < n; ++i) if (r[i] && completable(r[i])) { idx[k] = i; completeReq(&r[i], s ? &s[k] : nullptr); ++k; }
  *out = k;
  if (!k) spinYield("Testsome");
  return 0;
}
int MPI_Request_free(MPI_Request* r) {
  NEEDRUN(); checkReq(*r, __func__);
  if (!*r) MPIERR("MPI_REQUEST_NULL");
  auto* q = *r; *r = nullptr;
  if (q->kind == RQ_COLL) MPIERR("request of a non-blocking collective");
  if (q->kind == RQ_RECV && !q->complete) MPIERR("active receive request freed: completion cannot be detected");
  if (q->complete || (q->persistent && !q->active)) { if (q->kind == RQ_RECV && !q->delivered && q->complete) unpackTo(q->owner, q->buf, q->type, q->data.data(), q->data.size()); W.live.erase(q); delete q; }
  else q->freed = true;
  return 0;
}
int MPI_Request_get_status(MPI_Request r, int* f, MPI_Status* s) { checkReq(r, __func__); *f = completable(r); if (*f && r) setStatus(s, r->st); if (!*f) spinYield("Request_get_status"); return 0; }
int MPI_Cancel(MPI_Request* r) {
  NEEDRUN(); checkReq(*r, __func__);
  auto* q = *r;
  if (q && q->kind == RQ_RECV && !q->complete) { W.recvs.erase(std::find(W.recvs.begin(), W.recvs.end(), q)); q->complete = q->delivered = true; q->st = emptyStatus(); q->st._cancelled = 1; progressDet(W.cur); }
  return 0;
}
int MPI_Test_cancelled(const MPI_Status* s, int* f) { *f = s->_cancelled; return 0; }
int MPI_Send_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  vmpi_comm* cc = COMM(c); checkBuf(b, n, t, __func__);
  auto* q = newReq(RQ_SEND, "persistent send"); q->persistent = true; q->psend = true; q->comm = cc; q->buf = (void*)b; q->count = n; q->type = t; q->peer = d; q->tag = tag; *r = q; return 0;
}
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
  vmpi_comm* cc = COMM(c); checkBuf(b, n, t, __func__);
  auto* q = newReq(RQ_RECV, "persistent receive"); q->persistent = true; q->comm = cc; q->buf = b; q->count = n; q->type = t; q->peer = s; q->tag = tag; *r = q; return 0;
}
int MPI_Start(MPI_Request* r) {
  NEEDRUN(); checkReq(*r, __func__);
  auto* q = *r;
  if (!q || !q->persistent || q->active) MPIERR("not an inactive persistent request");
  q->active = true; q->complete = q->delivered = q->matched = false; q->postSeq = W.postSeq++;
  if (q->peer == MPI_PROC_NULL) { q->complete = q->delivered = true; q->st = procNullStatus(); return 0; }
  if (q->psend) {
    auto m = std::make_shared<Msg>();
    m->comm = q->comm; m->src = crank(q->comm); m->dst = q->peer; m->tag = q->tag; m->seq = W.msgSeq++; m->srcW = W.cur; m->dstW = q->comm->members[q->peer];
    m->buf = q->buf; m->count = q->count; m->type = q->type; m->bytes = q->type->size * (size_t)q->count; m->sig = sigOf(q->type, q->count);
    if (!W.o.rendezvous) { captureMsg(*m); q->complete = true; } else m->req = q;
    W.msgs.push_back(m); ++W.event; progressDet(m->dstW);
  } else { W.recvs.push_back(q); progressDet(W.cur); }
  abortIfFailed();
  return 0;
}
int MPI_Startall(int n, MPI_Request* r) { for (int i = 0; i < n; ++i) MPI_Start(&r[i]); return 0; }
int MPI_Buffer_attach(void*, int) { return 0; }
int MPI_Buffer_detach(void*, int*) { return 0; }

// ---------------- collectives
static void rootCheck(vmpi_comm* c, int root, const char* fn) { if (root < 0 || root >= (int)c->members.size()) vfail("mpi-error", std::string(fn) + sfmt(": invalid root %d", root)); }
static CollArg argBarrier() { return CollArg(); }
int MPI_Barrier(MPI_Comm c) { collRun(COMM(c), C_BARRIER, argBarrier(), -1, __func__); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) { *r = collStart(COMM(c), C_BARRIER, argBarrier(), -1, __func__); return 0; }
static CollArg argBcast(vmpi_comm* c, void* b, int n, MPI_Datatype t, int root, const char* fn) { rootCheck(c, root, fn); checkBuf(b, n, t, fn); CollArg a; a.sbuf = b; a.scount = n; a.stype = t; return a; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_BCAST, argBcast(cc, b, n, t, root, __func__), root, __func__); return 0; }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_BCAST, argBcast(cc, b, n, t, root, __func__), root, __func__); return 0; }
static CollArg argGather(vmpi_comm* c, const void* sb, int sn, MPI_Datatype st, void* rb, int rn, const int* rcs, const int* rds, MPI_Datatype rt, int root, const char* fn) {
  CollArg a; bool atRoot = root < 0 || crank(c) == root; if (root >= 0) rootCheck(c, root, fn);
  if (sb != MPI_IN_PLACE) checkBuf(sb, sn, st, fn);
  a.sbuf = sb; a.scount = sn; a.stype = st;
  if (atRoot) { checkType(rt, fn); a.rbuf = rb; a.rtype = rt; a.rcount = rn;
    if (rcs) { size_t n = c->members.size(); a.vv = true; a.rcounts.assign(rcs, rcs + n); a.rdispls.assign(rds, rds + n); } }
  return a;
}
int MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_GATHER, argGather(cc, sb, sn, st, rb, rn, 0, 0, rt, root, __func__), root, __func__); return 0; }
int MPI_Igather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_GATHER, argGather(cc, sb, sn, st, rb, rn, 0, 0, rt, root, __func__), root, __func__); return 0; }
int MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rc, const int* rd, MPI_Datatype rt, int root, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_GATHER, argGather(cc, sb, sn, st, rb, 0, rc, rd, rt, root, __func__), root, __func__); return 0; }
int MPI_Igatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rc, const int* rd, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_GATHER, argGather(cc, sb, sn, st, rb, 0, rc, rd, rt, root, __func__), root, __func__); return 0; }
int MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_ALLGATHER, argGather(cc, sb, sn, st, rb, rn, 0, 0, rt, -1, __func__), -1, __func__); return 0; }
int MPI_Allgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_ALLGATHER, argGather(cc, sb, sn, st, rb, 0, rc, rd, rt, -1, __func__), -1, __func__); return 0; }
int MPI_Iallgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_ALLGATHER, argGather(cc, sb, sn, st, rb, rn, 0, 0, rt, -1, __func__), -1, __func__); return 0; }
int MPI_Iallgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_ALLGATHER, argGather(cc, sb, sn, st, rb, 0, rc, rd, rt, -1, __func__), -1, __func__); return 0; }
static CollArg argScatter(vmpi_comm* c, const void* sb, int sn, const int* scs, const int* sds, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, const char* fn) {
  rootCheck(c, root, fn); CollArg a;
  if (crank(c) == root) { checkType(st, fn); a.sbuf = sb; a.scount = sn; a.stype = st; if (scs) { size_t n = c->members.size(); a.vv = true; a.scounts.assign(scs, scs + n); a.sdispls.assign(sds, sds + n); } }
  if (rb != MPI_IN_PLACE) checkBuf(rb, rn, rt, fn);
  a.rbuf = rb; a.rcount = rn; a.rtype = rt; return a;
}
int MPI_Scatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_SCATTER, argScatter(cc, sb, sn, 0, 0, st, rb, rn, rt, root, __func__), root, __func__); return 0; }
int MPI_Iscatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_SCATTER, argScatter(cc, sb, sn, 0, 0, st, rb, rn, rt, root, __func__), root, __func__); return 0; }
int MPI_Scatterv(const void* sb, const int* sc, const int* sd, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_SCATTER, argScatter(cc, sb, 0, sc, sd, st, rb, rn, rt, root, __func__), root, __func__); return 0; }
int MPI_Alltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) { CollArg a; a.sbuf = sb; a.scount = sn; a.stype = st; a.rbuf = rb; a.rcount = rn; a.rtype = rt; collRun(COMM(c), C_ALLTOALL, std::move(a), -1, __func__); return 0; }
int MPI_Alltoallv(const void* sb, const int* sc, const int* sd, MPI_Datatype st, void* rb, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) {
  auto* cc = COMM(c); size_t n = cc->members.size(); CollArg a; a.vv = true; a.sbuf = sb; a.stype = st; a.rbuf = rb; a.rtype = rt;
  if (sb != MPI_IN_PLACE) { a.scounts.assign(sc, sc + n); a.sdispls.assign(sd, sd + n); } a.rcounts.assign(rc, rc + n); a.rdispls.assign(rd, rd + n);
  collRun(cc, C_ALLTOALL, std::move(a), -1, __func__); return 0;
}
static CollArg argReduce(vmpi_comm* c, const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, const char* fn) {
  if (root >= 0) rootCheck(c, root, fn);
  checkBuf(sb, n, t, fn);
  if (!op || op->freed) vfail("mpi-error", std::string(fn) + ": invalid operator");
  bool atRoot = root < 0 || crank(c) == root;
  if (sb == MPI_IN_PLACE && !atRoot) vfail("mpi-error", std::string(fn) + ": MPI_IN_PLACE as send buffer of a non-root rank");
  if (atRoot && rb == MPI_IN_PLACE) vfail("mpi-error", std::string(fn) + ": MPI_IN_PLACE as receive buffer");
  if (atRoot && n > 0 && sb == rb) vfail("mpi-error", std::string(fn) + ": send and receive buffers alias");
  // an operator may be freed while operations that use it are pending: its validity counts at the call
  if (!op || op->freed) vfail("mpi-error", "invalid reduction operator");
  CollArg a; a.sbuf = sb; a.rbuf = rb; a.rcount = n; a.rtype = t; a.op = op; return a;
}
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_REDUCE, argReduce(cc, sb, rb, n, t, op, root, __func__), root, __func__); return 0; }
int MPI_Ireduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_REDUCE, argReduce(cc, sb, rb, n, t, op, root, __func__), root, __func__); return 0; }
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_ALLREDUCE, argReduce(cc, sb, rb, n, t, op, -1, __func__), -1, __func__); return 0; }
int MPI_Iallreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_ALLREDUCE, argReduce(cc, sb, rb, n, t, op, -1, __func__), -1, __func__); return 0; }
int MPI_Scan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_SCAN, argReduce(cc, sb, rb, n, t, op, -1, __func__), -1, __func__); return 0; }
int MPI_Iscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_SCAN, argReduce(cc, sb, rb, n, t, op, -1, __func__), -1, __func__); return 0; }
int MPI_Exscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { auto* cc = COMM(c); collRun(cc, C_EXSCAN, argReduce(cc, sb, rb, n, t, op, -1, __func__), -1, __func__); return 0; }
int MPI_Iexscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* r) { auto* cc = COMM(c); *r = collStart(cc, C_EXSCAN, argReduce(cc, sb, rb, n, t, op, -1, __func__), -1, __func__); return 0; }
int MPI_Reduce_scatter(const void* sb, void* rb, const int* rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  auto* cc = COMM(c); int n = 0; std::vector<int> v(rc, rc + cc->members.size()); for (int x : v) n += x;
  CollArg a = argReduce(cc, sb, rb, n, t, op, -1, __func__); a.rcounts = v; collRun(cc, C_REDSCAT, std::move(a), -1, __func__); return 0;
}
int MPI_Reduce_scatter_block(const void* sb, void* rb, int k, MPI_Datatype t, MPI_Op op, MPI_Comm c) { auto* cc = COMM(c); std::vector<int> v(cc->members.size(), k); return MPI_Reduce_scatter(sb, rb, v.data(), t, op, c); }
int MPI_Reduce_local(const void* in, void* io, int n, MPI_Datatype t, MPI_Op op) {
  if (!op || op->freed) vfail("mpi-error", "invalid reduction operator");
  auto a = packFrom(W.cur, in, n, t), b = packFrom(W.cur, io, n, t); applyOp(op, t, n, a, b); unpackTo(W.cur, io, t, b.data(), b.size()); return 0;
}
int MPI_Op_create(MPI_User_function* f, int commute, MPI_Op* o) { *o = new vmpi_op{"user", -1, f, commute != 0, false}; return 0; }
int MPI_Op_free(MPI_Op* o) { if (!*o || !(*o)->fn) MPIERR("invalid operator"); (*o)->freed = true; *o = nullptr; return 0; }
int MPI_Op_commutative(MPI_Op o, int* c) { *c = o->commute; return 0; }

// ---------------- communicators
int MPI_Comm_size(MPI_Comm c, int* n) { *n = (int)COMM(c)->members.size(); return 0; }
int MPI_Comm_rank(MPI_Comm c, int* n) { *n = crank(COMM(c)); return 0; }
}
static void buildComms(Coll& c) {
  if (c.built) return;
  c.built = true;
  int n = (int)c.a.size();
  auto& mem = c.comm->members;
  switch (c.kind) {
    case C_SPLIT: {
      std::map<int, std::vector<int>> by;
      for (int i = 0; i < n; ++i) if (c.a[i].color != MPI_UNDEFINED) by[c.a[i].color].push_back(i);
      for (auto& kv : by) {
        std::stable_sort(kv.second.begin(), kv.second.end(), [&](int x, int y) { return c.a[x].key < c.a[y].key; });
        std::vector<int> m; for (int i : kv.second) m.push_back(mem[i]);
        auto* nc = newComm(m); for (int i : kv.second) c.a[i].newcomm = nc;
      }
    } break;
    case C_DUP: { auto* nc = newComm(mem); nc->cart = c.comm->cart; nc->dims = c.comm->dims; nc->periods = c.comm->periods; for (auto& a : c.a) a.newcomm = nc; } break;
    case C_CREATE: {
      std::map<std::vector<int>, vmpi_comm*> by;
      for (int i = 0; i < n; ++i) {
        auto& g = c.a[i].grp;
        if (std::find(g.begin(), g.end(), mem[i]) == g.end()) continue;
        for (int w : g) {
          auto it = c.comm->rankOf.find(w);
          if (it == c.comm->rankOf.end()) vfail("mpi-error", "Comm_create: group is not a subset of the communicator");
          if (c.a[it->second].grp != g) vfail("collective-mismatch", "Comm_create: members pass different groups");
        }
        auto& nc = by[g]; if (!nc) nc = newComm(g);
        c.a[i].newcomm = nc;
      }
    } break;
    case C_CART: {
      for (auto& a : c.a) if (a.dims != c.a[0].dims || a.periods != c.a[0].periods) vfail("collective-mismatch", "Cart_create: different dimensions");
      long p = 1; for (int d : c.a[0].dims) p *= d;
      if (p > n) vfail("mpi-error", "Cart_create: grid larger than communicator");
      auto* nc = newComm(std::vector<int>(mem.begin(), mem.begin() + p)); nc->cart = true; nc->dims = c.a[0].dims; nc->periods = c.a[0].periods;
      for (int i = 0; i < p; ++i) c.a[i].newcomm = nc;
    } break;
    default: break;
  }
}
static vmpi_comm* commColl(vmpi_comm* c, CollKind k, CollArg&& a, const char* fn) {
  auto p = collPost(c, k, std::move(a), -1, false, fn);
  block([p] { return p->narrived == (int)p->a.size(); }, sfmt("%s (comm size %zu)", fn, c->members.size()));
  buildComms(*p);
  int r = crank(c);
  p->a[r].delivered = true;
  bool all = true; for (auto& x : p->a) if (!x.delivered) all = false;
  auto* nc = p->a[r].newcomm;
  if (all) c->colls.erase(p->seq);
  return nc;
}
static std::vector<int> coordsOf(vmpi_comm* c, int r) { int nd = (int)c->dims.size(); std::vector<int> x(nd); for (int d = nd - 1; d >= 0; --d) { x[d] = r % c->dims[d]; r /= c->dims[d]; } return x; }
static int cartRank(vmpi_comm* c, const int* x, bool nullOk, const char* fn) {
  int r = 0;
  for (size_t d = 0; d < c->dims.size(); ++d) {
    int v = x[d];
    if (v < 0 || v >= c->dims[d]) { if (!c->periods[d]) { if (nullOk) return MPI_PROC_NULL; vfail("mpi-error", std::string(fn) + ": coordinate out of range in a non-periodic dimension"); } v = ((v % c->dims[d]) + c->dims[d]) % c->dims[d]; }
    r = r * c->dims[d] + v;
  }
  return r;
}
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { *n = commColl(COMM(c), C_DUP, CollArg(), __func__); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n) { if (color < 0 && color != MPI_UNDEFINED) MPIERR("negative color %d", color); CollArg a; a.color = color; a.key = key; *n = commColl(COMM(c), C_SPLIT, std::move(a), __func__); return 0; }
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info, MPI_Comm* n) { CollArg a; a.color = t == MPI_UNDEFINED ? MPI_UNDEFINED : 0; a.key = key; *n = commColl(COMM(c), C_SPLIT, std::move(a), __func__); return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* n) { if (!g) MPIERR("MPI_GROUP_NULL"); CollArg a; a.grp = g->members; *n = commColl(COMM(c), C_CREATE, std::move(a), __func__); return 0; }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm* n) {
  // collective over the group only: implemented by an internal communicator keyed by the member list
  vmpi_comm* cc = COMM(c); if (!g) MPIERR("MPI_GROUP_NULL");
  if (std::find(g->members.begin(), g->members.end(), W.cur) == g->members.end()) { *n = nullptr; return 0; }
  static std::map<std::pair<int, std::vector<int>>, vmpi_comm*> inner; static void* epoch = nullptr;
  if (epoch != (void*)W.r[0].get()) { inner.clear(); epoch = (void*)W.r[0].get(); }
  auto& ic = inner[{cc->id * 1000003 + tag, g->members}]; if (!ic) ic = newComm(g->members);
  *n = commColl(ic, C_DUP, CollArg(), __func__); return 0;
}
int MPI_Comm_free(MPI_Comm* c) {
  vmpi_comm* cc = COMM(*c);
  if (cc == &vmpi_comm_world || cc->id < 0) MPIERR("predefined communicator");
  cc->freedBy.insert(W.cur); *c = nullptr; return 0;
}
int MPI_Comm_disconnect(MPI_Comm* c) { return MPI_Comm_free(c); }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { *g = new vmpi_group{COMM(c)->members}; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
  auto *x = COMM(a), *y = COMM(b);
  if (x == y) *r = MPI_IDENT; else if (x->members == y->members) *r = MPI_CONGRUENT; else { auto p = x->members, q = y->members; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; } return 0;
}
int MPI_Comm_test_inter(MPI_Comm c, int* f) { COMM(c); *f = 0; return 0; }
int MPI_Comm_remote_size(MPI_Comm, int*) { MPIERR("not an intercommunicator"); }
int MPI_Comm_set_name(MPI_Comm c, const char* n) { COMM(c)->name = n; return 0; }
int MPI_Comm_get_name(MPI_Comm c, char* n, int* l) { *l = snprintf(n, MPI_MAX_OBJECT_NAME, "%s", COMM(c)->name.c_str()); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { COMM(c); return 0; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler* e) { COMM(c); *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler* e) { *e = new vmpi_errhandler{2}; return 0; }
int MPI_Errhandler_free(MPI_Errhandler* e) { *e = nullptr; return 0; }
static int tagUb = 0x7fffffff;
int MPI_Comm_get_attr(MPI_Comm, int k, void* v, int* f) { if (k == MPI_TAG_UB) { *(int**)v = &tagUb; *f = 1; } else *f = 0; return 0; }
int MPI_Attr_get(MPI_Comm c, int k, void* v, int* f) { return MPI_Comm_get_attr(c, k, v, f); }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c ? COMM(c)->id : -1; }
MPI_Comm MPI_Comm_f2c(MPI_Fint i) { if (i == 0) return MPI_COMM_WORLD; for (auto* c : W.comms) if (c->id == i) return c; return nullptr; }
int MPI_Group_size(MPI_Group g, int* n) { *n = (int)g->members.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int* r) { auto it = std::find(g->members.begin(), g->members.end(), W.cur); *r = it == g->members.end() ? MPI_UNDEFINED : (int)(it - g->members.begin()); return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) { auto* x = new vmpi_group; for (int i = 0; i < n; ++i) { if (r[i] < 0 || r[i] >= (int)g->members.size()) MPIERR("rank %d out of range", r[i]); int w = g->members[r[i]]; if (std::find(x->members.begin(), x->members.end(), w) != x->members.end()) MPIERR("duplicate rank %d", r[i]); x->members.push_back(w); } *o = x; return 0; }
int MPI_Group_excl(MPI_Group g, int n, const int* r, MPI_Group* o) { auto* x = new vmpi_group; for (int i = 0; i < (int)g->members.size(); ++i) if (std::find(r, r + n, i) == r + n) x->members.push_back(g->members[i]); *o = x; return 0; }
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group* o) { auto* x = new vmpi_group(*a); for (int w : b->members) if (std::find(a->members.begin(), a->members.end(), w) == a->members.end()) x->members.push_back(w); *o = x; return 0; }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group* o) { auto* x = new vmpi_group; for (int w : a->members) if (std::find(b->members.begin(), b->members.end(), w) != b->members.end()) x->members.push_back(w); *o = x; return 0; }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group* o) { auto* x = new vmpi_group; for (int w : a->members) if (std::find(b->members.begin(), b->members.end(), w) == b->members.end()) x->members.push_back(w); *o = x; return 0; }
int MPI_Group_range_incl(MPI_Group g, int n, int rg[][3], MPI_Group* o) { auto* x = new vmpi_group; for (int i = 0; i < n; ++i) for (int k = rg[i][0]; rg[i][2] > 0 ? k <= rg[i][1] : k >= rg[i][1]; k += rg[i][2]) { if (k < 0 || k >= (int)g->members.size()) MPIERR("rank %d out of range", k); x->members.push_back(g->members[k]); } *o = x; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* o) { for (int i = 0; i < n; ++i) { if (r[i] == MPI_PROC_NULL) { o[i] = r[i]; continue; } auto it = std::find(b->members.begin(), b->members.end(), a->members.at(r[i])); o[i] = it == b->members.end() ? MPI_UNDEFINED : (int)(it - b->members.begin()); } return 0; }
int MPI_Group_compare(MPI_Group a, MPI_Group b, int* r) { *r = a->members == b->members ? MPI_IDENT : MPI_UNEQUAL; return 0; }
int MPI_Group_free(MPI_Group* g) { if (*g && *g != MPI_GROUP_EMPTY) delete *g; *g = nullptr; return 0; }

int MPI_Cart_create(MPI_Comm c, int nd, const int* dims, const int* per, int, MPI_Comm* n) {
  CollArg a; a.dims.assign(dims, dims + nd); for (int i = 0; i < nd; ++i) { a.periods.push_back(per[i] != 0); if (dims[i] < 1) MPIERR("dimension %d has size %d", i, dims[i]); }
  *n = commColl(COMM(c), C_CART, std::move(a), __func__); return 0;
}
int MPI_Cart_sub(MPI_Comm c, const int* remain, MPI_Comm* n) {
  vmpi_comm* cc = COMM(c); if (!cc->cart) MPIERR("no Cartesian topology");
  auto x = coordsOf(cc, crank(cc)); int color = 0, key = 0; std::vector<int> d, p;
  for (size_t i = 0; i < cc->dims.size(); ++i) { if (remain[i]) { key = key * cc->dims[i] + x[i]; d.push_back(cc->dims[i]); p.push_back(cc->periods[i]); } else color = color * cc->dims[i] + x[i]; }
  CollArg a; a.color = color; a.key = key; auto* nc = commColl(cc, C_SPLIT, std::move(a), __func__); nc->cart = true; nc->dims = d; nc->periods = p; *n = nc; return 0;
}
static vmpi_comm* cartC(MPI_Comm c, const char* fn) { auto* cc = C(c, fn); if (!cc->cart) vfail("mpi-error", std::string(fn) + ": no Cartesian topology"); return cc; }
int MPI_Cart_get(MPI_Comm c, int maxd, int* dims, int* per, int* co) { auto* cc = cartC(c, __func__); auto x = coordsOf(cc, crank(cc)); for (int i = 0; i < maxd && i < (int)cc->dims.size(); ++i) { dims[i] = cc->dims[i]; per[i] = cc->periods[i]; co[i] = x[i]; } return 0; }
int MPI_Cart_rank(MPI_Comm c, const int* x, int* r) { *r = cartRank(cartC(c, __func__), x, false, __func__); return 0; }
int MPI_Cart_coords(MPI_Comm c, int r, int maxd, int* x) { auto* cc = cartC(c, __func__); if (r < 0 || r >= (int)cc->members.size()) MPIERR("rank %d out of range", r); auto v = coordsOf(cc, r); if (maxd < (int)v.size()) MPIERR("maxdims too small"); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; return 0; }
int MPI_Cart_shift(MPI_Comm c, int d, int disp, int* s, int* t) { auto* cc = cartC(c, __func__); if (d < 0 || d >= (int)cc->dims.size()) MPIERR("direction %d out of range", d); auto x = coordsOf(cc, crank(cc)); auto y = x; y[d] = x[d] + disp; *t = cartRank(cc, y.data(), true, __func__); y[d] = x[d] - disp; *s = cartRank(cc, y.data(), true, __func__); return 0; }
int MPI_Cartdim_get(MPI_Comm c, int* n) { *n = (int)cartC(c, __func__)->dims.size(); return 0; }
int MPI_Topo_test(MPI_Comm c, int* s) { *s = COMM(c)->cart ? MPI_CART : MPI_UNDEFINED; return 0; }
int MPI_Dims_create(int n, int nd, int* d) {
  int rest = n; std::vector<int> free;
  for (int i = 0; i < nd; ++i) { if (d[i] > 0) { if (rest % d[i]) MPIERR("not divisible"); rest /= d[i]; } else free.push_back(i); }
  std::vector<int> v(free.size(), 1); std::vector<int> f;
  for (int p = 2; rest > 1;) { if (rest % p == 0) { f.push_back(p); rest /= p; } else ++p; }
  for (size_t i = f.size(); i-- > 0;) { if (v.empty()) break; *std::min_element(v.begin(), v.end()) *= f[i]; }
  std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < free.size(); ++i) d[free[i]] = v[i]; return 0;
}

// ---------------- datatypes
}
static MPI_Datatype mkType(const char* nm) { auto* t = new vmpi_datatype; t->name = nm; W.types.push_back(t); return t; }
static void addBlock(vmpi_datatype* t, MPI_Datatype old, ptrdiff_t off, long n) {
  bool contig = old->segs.size() == 1 && old->segs[0].off == 0 && (ptrdiff_t)old->size == old->extent();
  auto push = [&](ptrdiff_t o, int b, long k) {
    if (!t->segs.empty()) { auto& l = t->segs.back(); if (l.basic == b && l.off + (ptrdiff_t)(l.n * vmpi_basic_size[b]) == o) { l.n += k; return; } }
    t->segs.push_back({o, b, k});
  };
  if (contig && n > 0) push(off, old->segs[0].basic, old->segs[0].n * n);
  else for (long i = 0; i < n; ++i) for (auto& s : old->segs) push(off + i * old->extent() + s.off, s.basic, s.n);
}
static void finishType(vmpi_datatype* t) {
  t->size = 0; bool first = true;
  for (auto& s : t->segs) { size_t len = s.n * vmpi_basic_size[s.basic]; t->size += len; ptrdiff_t lo = s.off, hi = s.off + (ptrdiff_t)len; if (first) { t->tlb = lo; t->tub = hi; first = false; } t->tlb = std::min(t->tlb, lo); t->tub = std::max(t->tub, hi); }
}
// blocks: (count, byte displacement)
static MPI_Datatype mkIndexed(const char* nm, const std::vector<std::pair<long, ptrdiff_t>>& b, MPI_Datatype old) {
  auto* t = mkType(nm); bool first = true;
  for (auto& p : b) {
    addBlock(t, old, p.second, p.first);
    if (p.first > 0) { ptrdiff_t lo = p.second + old->lb, hi = p.second + (p.first - 1) * old->extent() + old->ub; if (first) { t->lb = lo; t->ub = hi; first = false; } t->lb = std::min(t->lb, lo); t->ub = std::max(t->ub, hi); }
  }
  finishType(t); return t;
}
extern "C" {
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t) { checkType(o, __func__, false); *t = mkIndexed("contiguous", {{n, 0}}, o); (*t)->combiner = MPI_COMBINER_CONTIGUOUS; (*t)->ints = {n}; (*t)->types = {o}; return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype* t) { checkType(o, __func__, false); std::vector<std::pair<long, ptrdiff_t>> b; for (int i = 0; i < n; ++i) b.push_back({bl, i * st}); *t = mkIndexed("hvector", b, o); (*t)->combiner = MPI_COMBINER_HVECTOR; (*t)->ints = {n, bl}; (*t)->aints = {st}; (*t)->types = {o}; return 0; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype* t) { MPI_Type_create_hvector(n, bl, st * o->extent(), o, t); (*t)->name = "vector"; (*t)->combiner = MPI_COMBINER_VECTOR; (*t)->ints = {n, bl, st}; (*t)->aints.clear(); return 0; }
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* t) { checkType(o, __func__, false); std::vector<std::pair<long, ptrdiff_t>> b; for (int i = 0; i < n; ++i) b.push_back({bl[i], d[i]}); *t = mkIndexed("hindexed", b, o); (*t)->combiner = MPI_COMBINER_HINDEXED; (*t)->ints = {n}; (*t)->ints.insert((*t)->ints.end(), bl, bl + n); (*t)->aints.assign(d, d + n); (*t)->types = {o}; return 0; }
int MPI_Type_indexed(int n, const int* bl, const int* d, MPI_Datatype o, MPI_Datatype* t) {
  if (n < 0) MPIERR("negative count");
  checkType(o, __func__, false); std::vector<std::pair<long, ptrdiff_t>> b; for (int i = 0; i < n; ++i) { if (bl[i] < 0) MPIERR("negative block length"); b.push_back({bl[i], d[i] * o->extent()}); } *t = mkIndexed("indexed", b, o); (*t)->combiner = MPI_COMBINER_INDEXED; (*t)->ints = {n}; (*t)->ints.insert((*t)->ints.end(), bl, bl + n); (*t)->ints.insert((*t)->ints.end(), d, d + n); (*t)->types = {o}; return 0; }
int MPI_Type_create_indexed_block(int n, int bl, const int* d, MPI_Datatype o, MPI_Datatype* t) { checkType(o, __func__, false); std::vector<std::pair<long, ptrdiff_t>> b; for (int i = 0; i < n; ++i) b.push_back({bl, d[i] * o->extent()}); *t = mkIndexed("indexed_block", b, o); (*t)->combiner = MPI_COMBINER_INDEXED_BLOCK; (*t)->ints = {n, bl}; (*t)->ints.insert((*t)->ints.end(), d, d + n); (*t)->types = {o}; return 0; }
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* t) { checkType(o, __func__, false); std::vector<std::pair<long, ptrdiff_t>> b; for (int i = 0; i < n; ++i) b.push_back({bl, d[i]}); *t = mkIndexed("hindexed_block", b, o); (*t)->combiner = MPI_COMBINER_HINDEXED_BLOCK; (*t)->ints = {n, bl}; (*t)->aints.assign(d, d + n); (*t)->types = {o}; return 0; }
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* d, const MPI_Datatype* ts, MPI_Datatype* t) {
  auto* x = mkType("struct"); bool first = true;
  for (int i = 0; i < n; ++i) { checkType(ts[i], __func__, false); addBlock(x, ts[i], d[i], bl[i]); if (bl[i] > 0) { ptrdiff_t lo = d[i] + ts[i]->lb, hi = d[i] + (bl[i] - 1) * ts[i]->extent() + ts[i]->ub; if (first) { x->lb = lo; x->ub = hi; first = false; } x->lb = std::min(x->lb, lo); x->ub = std::max(x->ub, hi); } }
  finishType(x); x->combiner = MPI_COMBINER_STRUCT; x->ints = {n}; x->ints.insert(x->ints.end(), bl, bl + n); x->aints.assign(d, d + n); x->types.assign(ts, ts + n); *t = x; return 0;
}
int MPI_Type_create_subarray(int nd, const int* sz, const int* sub, const int* st, int order, MPI_Datatype o, MPI_Datatype* t) {
  checkType(o, __func__, false); auto* x = mkType("subarray");
  long total = 1; for (int i = 0; i < nd; ++i) { if (sub[i] < 1 || sub[i] > sz[i] || st[i] < 0 || st[i] + sub[i] > sz[i]) MPIERR("invalid subarray in dimension %d: size %d subsize %d start %d", i, sz[i], sub[i], st[i]); total *= sz[i]; }
  std::vector<int> dimOrder(nd);  // fastest first
  for (int i = 0; i < nd; ++i) dimOrder[i] = order == MPI_ORDER_FORTRAN ? i : nd - 1 - i;
  std::vector<long> stride(nd); long s = 1; for (int k = 0; k < nd; ++k) { stride[dimOrder[k]] = s; s *= sz[dimOrder[k]]; }
  std::vector<int> idx(nd, 0);
  for (;;) {
    long off = 0; for (int i = 0; i < nd; ++i) off += (st[i] + idx[i]) * stride[i];
    addBlock(x, o, off * o->extent(), sub[dimOrder[0]]);
    int k = 1; for (; k < nd; ++k) { int d = dimOrder[k]; if (++idx[d] < sub[d]) break; idx[d] = 0; }
    if (k >= nd) break;
  }
  finishType(x); x->lb = 0; x->ub = total * o->extent(); x->combiner = MPI_COMBINER_SUBARRAY; x->ints = {nd}; x->ints.insert(x->ints.end(), sz, sz + nd); x->ints.insert(x->ints.end(), sub, sub + nd); x->ints.insert(x->ints.end(), st, st + nd); x->ints.push_back(order); x->types = {o}; *t = x; return 0;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* t) { auto* x = mkType("resized"); x->segs = o->segs; finishType(x); x->lb = lb; x->ub = lb + ext; x->combiner = MPI_COMBINER_RESIZED; x->aints = {lb, ext}; x->types = {o}; *t = x; return 0; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* t) { auto* x = mkType("dup"); std::string n = o->name; *x = *o; x->name = n; x->basic = o->basic; x->freed = false; x->combiner = MPI_COMBINER_DUP; x->types = {o}; *t = x; return 0; }
int MPI_Type_commit(MPI_Datatype* t) { checkType(*t, __func__, false); (*t)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype* t) { checkType(*t, __func__, false); if ((*t)->basic >= 0 && (*t)->combiner == MPI_COMBINER_NAMED) MPIERR("predefined type"); (*t)->freed = true; *t = nullptr; return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { checkType(t, __func__, false); *s = (int)t->size; return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count* s) { checkType(t, __func__, false); *s = (MPI_Count)t->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* l, MPI_Aint* e) { checkType(t, __func__, false); *l = t->lb; *e = t->extent(); return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint* l, MPI_Aint* e) { checkType(t, __func__, false); *l = t->tlb; *e = t->tub - t->tlb; return 0; }
int MPI_Type_get_envelope(MPI_Datatype t, int* ni, int* na, int* nd, int* c) { checkType(t, __func__, false); *ni = (int)t->ints.size(); *na = (int)t->aints.size(); *nd = (int)t->types.size(); *c = t->combiner; return 0; }
int MPI_Type_get_contents(MPI_Datatype t, int mi, int ma, int md, int* i, MPI_Aint* a, MPI_Datatype* d) {
  checkType(t, __func__, false); if (t->combiner == MPI_COMBINER_NAMED) MPIERR("named type");
  if (mi < (int)t->ints.size() || ma < (int)t->aints.size() || md < (int)t->types.size()) MPIERR("arrays too small");
  std::copy(t->ints.begin(), t->ints.end(), i); std::copy(t->aints.begin(), t->aints.end(), a); std::copy(t->types.begin(), t->types.end(), d); return 0;
}
int MPI_Type_get_name(MPI_Datatype t, char* n, int* l) { *l = snprintf(n, MPI_MAX_OBJECT_NAME, "%s", t->name.c_str()); return 0; }
int MPI_Type_set_name(MPI_Datatype t, const char* n) { t->name = n; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
int MPI_Pack(const void* b, int n, MPI_Datatype t, void* o, int os, int* pos, MPI_Comm) { auto v = packFrom(W.cur, b, n, t); if (*pos + (int)v.size() > os) MPIERR("buffer too small"); memcpy((char*)o + *pos, v.data(), v.size()); *pos += (int)v.size(); return 0; }
int MPI_Unpack(const void* b, int, int* pos, void* o, int n, MPI_Datatype t, MPI_Comm) { size_t s = t->size * n; unpackTo(W.cur, o, t, (const char*)b + *pos, s); *pos += (int)s; return 0; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s) { *s = (int)(t->size * n); return 0; }

// ---------------- info
int MPI_Info_create(MPI_Info* i) { *i = new vmpi_info; return 0; }
int MPI_Info_set(MPI_Info i, const char* k, const char* v) { if (!i) MPIERR("MPI_INFO_NULL"); i->kv[k] = v; return 0; }
int MPI_Info_get(MPI_Info i, const char* k, int n, char* v, int* f) { auto it = i->kv.find(k); *f = it != i->kv.end(); if (*f) snprintf(v, n + 1, "%s", it->second.c_str()); return 0; }
int MPI_Info_delete(MPI_Info i, const char* k) { i->kv.erase(k); return 0; }
int MPI_Info_dup(MPI_Info i, MPI_Info* o) { *o = new vmpi_info(*i); return 0; }
int MPI_Info_free(MPI_Info* i) { if (!*i) MPIERR("MPI_INFO_NULL"); delete *i; *i = nullptr; return 0; }

// ---------------- files (on the real file system)
static vmpi_file* F(MPI_File f, const char* fn) {
  if (!inRun()) { fprintf(stderr, "MPI call outside run: %s\n", fn); _exit(97); }
  if (!f || !W.fileSet.count(f)) vfail("mpi-error", std::string(fn) + ": invalid file handle");
  if (f->closedBy.count(W.cur)) vfail("mpi-error", std::string(fn) + ": file was closed");
  return f;
}
static void fileColl(vmpi_file* f, CollKind k, const char* fn) {
  auto* c = f->comm;
  auto p = collPost(c, k, CollArg(), -1, false, fn);
  block([p] { return p->narrived == (int)p->a.size(); }, sfmt("%s (comm size %zu)", fn, c->members.size()));
  int r = crank(c); p->a[r].delivered = true;
  bool all = true; for (auto& x : p->a) if (!x.delivered) all = false;
  if (all) c->colls.erase(p->seq);
}
int MPI_File_open(MPI_Comm c, const char* name, int amode, MPI_Info, MPI_File* out) {
  vmpi_comm* cc = COMM(c);
  point(PT_FILE, __func__);
  CollArg a; a.fname = name; a.amode = amode;
  // collectives of files run on an internal communicator of their own
  auto p = collPost(cc, C_FOPEN, std::move(a), -1, false, __func__);
  block([p] { return p->narrived == (int)p->a.size(); }, sfmt("File_open (comm size %zu)", cc->members.size()));
  if (!p->built) {
    p->built = true;
    for (auto& x : p->a) if (x.fname != p->a[0].fname || x.amode != p->a[0].amode) vfail("collective-mismatch", "File_open: different names or modes: " + x.fname + " / " + p->a[0].fname);
    int fl = 0;
    if (amode & MPI_MODE_RDWR) fl = O_RDWR; else if (amode & MPI_MODE_WRONLY) fl = O_WRONLY; else fl = O_RDONLY;
    if (amode & MPI_MODE_CREATE) fl |= O_CREAT;
    if (amode & MPI_MODE_EXCL) fl |= O_EXCL;
    int fd = open(name, fl, 0644);
    int err = 0; vmpi_file* f = nullptr;
    if (fd < 0) err = errno == EEXIST ? MPI_ERR_FILE_EXISTS : errno == ENOENT ? MPI_ERR_NO_SUCH_FILE : errno == EACCES ? MPI_ERR_ACCESS : MPI_ERR_IO;
    else {
      f = new vmpi_file; f->name = name; f->fd = fd; f->amode = amode;
      auto m = cc->members; f->comm = newComm(m); f->view.resize(m.size());
      W.files.push_back(f); W.fileSet.insert(f);
      if (amode & MPI_MODE_APPEND) { struct stat st; fstat(fd, &st); for (auto& v : f->view) v.pos = st.st_size; }
    }
    for (auto& x : p->a) { x.err = err; x.file = f; }
    ++W.event;
  }
  int r = crank(cc); p->a[r].delivered = true;
  int err = p->a[r].err; *out = p->a[r].file;
  bool all = true; for (auto& x : p->a) if (!x.delivered) all = false;
  if (all) cc->colls.erase(p->seq);
  return err;
}
int MPI_File_close(MPI_File* f) {
  if (!*f) return MPI_ERR_FILE;   // file error handlers return by default
  vmpi_file* x = F(*f, __func__);
  point(PT_FILE, __func__);
  fileColl(x, C_FCLOSE, __func__);
  x->closedBy.insert(W.cur); ++x->nclosed; ++W.event;
  if (x->nclosed == (int)x->comm->members.size()) { close(x->fd); x->fd = -1; if (x->amode & MPI_MODE_DELETE_ON_CLOSE) unlink(x->name.c_str()); }
  *f = nullptr; return 0;
}
int MPI_File_delete(const char* n, MPI_Info) { NEEDRUN(); point(PT_FILE, __func__); ++W.event; return unlink(n) ? (errno == ENOENT ? MPI_ERR_NO_SUCH_FILE : MPI_ERR_IO) : 0; }
int MPI_File_get_size(MPI_File f, MPI_Offset* s) { struct stat st; if (fstat(F(f, __func__)->fd, &st)) return MPI_ERR_IO; *s = st.st_size; return 0; }
// one operation of all ranks: done before any of them continues
int MPI_File_set_size(MPI_File f, MPI_Offset s) { auto* x = F(f, __func__); point(PT_FILE, __func__); fileColl(x, C_FOTHER, __func__); if (x->setSizes[crank(x->comm)]++ == x->setSizesDone) { ++x->setSizesDone; ++W.event; if (ftruncate(x->fd, s)) return MPI_ERR_IO; } return 0; }
int MPI_File_preallocate(MPI_File f, MPI_Offset s) { auto* x = F(f, __func__); fileColl(x, C_FOTHER, __func__); struct stat st; fstat(x->fd, &st); if (st.st_size < s) return ftruncate(x->fd, s) ? MPI_ERR_IO : 0; return 0; }
int MPI_File_set_view(MPI_File f, MPI_Offset d, MPI_Datatype e, MPI_Datatype ft, const char*, MPI_Info) {
  auto* x = F(f, __func__); checkType(e, __func__); checkType(ft, __func__); fileColl(x, C_FVIEW, __func__);
  auto& v = x->view[crank(x->comm)]; v.disp = d; v.etype = e; v.ftype = ft; v.pos = 0; return 0;
}
}
// absolute byte offset of data byte k of the view and number of contiguous bytes there
static MPI_Offset viewOff(vmpi_file::View& v, MPI_Offset k, size_t& run) {
  if (!v.ftype || (v.ftype->segs.size() == 1 && v.ftype->segs[0].off == 0 && (ptrdiff_t)v.ftype->size == v.ftype->extent())) { run = (size_t)1 << 60; return v.disp + k; }
  MPI_Offset tile = k / (MPI_Offset)v.ftype->size, in = k % (MPI_Offset)v.ftype->size;
  for (auto& s : v.ftype->segs) { MPI_Offset len = s.n * vmpi_basic_size[s.basic]; if (in < len) { run = len - in; return v.disp + tile * v.ftype->extent() + s.off + in; } in -= len; }
  run = 1; return 0;
}
static int fwr(vmpi_file* x, MPI_Offset byteInView, const std::vector<char>& d) {
  auto& v = x->view[crank(x->comm)]; size_t o = 0;
  while (o < d.size()) { size_t run; MPI_Offset at = viewOff(v, byteInView + o, run); size_t n = std::min(run, d.size() - o); if (pwrite(x->fd, d.data() + o, n, at) != (ssize_t)n) return MPI_ERR_IO; o += n; }
  ++W.event; return 0;
}
static int frd(vmpi_file* x, MPI_Offset byteInView, std::vector<char>& d, size_t want) {
  auto& v = x->view[crank(x->comm)]; d.resize(want); size_t o = 0;
  while (o < want) { size_t run; MPI_Offset at = viewOff(v, byteInView + o, run); size_t n = std::min(run, want - o); ssize_t g = pread(x->fd, d.data() + o, n, at); if (g < 0) return MPI_ERR_IO; o += g; if ((size_t)g < n) break; }
  d.resize(o); return 0;
}
static size_t esize(vmpi_file* x) { auto& v = x->view[crank(x->comm)]; return v.etype ? v.etype->size : 1; }
static int doWrite(MPI_File f, const MPI_Offset* off, const void* b, int n, MPI_Datatype t, MPI_Status* st, bool coll, const char* fn) {
  auto* x = F(f, fn); checkBuf(b, n, t, fn); point(PT_FILE, fn);
  if (off && *off < 0) vfail("mpi-error", std::string(fn) + ": negative offset");
  auto d = packFrom(W.cur, b, n, t);
  auto& v = x->view[crank(x->comm)];
  MPI_Offset at = off ? *off * (MPI_Offset)esize(x) : v.pos;
  int e = (x->amode & (MPI_MODE_WRONLY | MPI_MODE_RDWR)) ? fwr(x, at, d) : MPI_ERR_ACCESS;
  if (!off) v.pos += d.size();
  if (coll) fileColl(x, C_FWRITE, fn);
  if (st) { *st = emptyStatus(); st->_ucount = e ? 0 : d.size(); }
  return e;
}
static int doRead(MPI_File f, const MPI_Offset* off, void* b, int n, MPI_Datatype t, MPI_Status* st, bool coll, const char* fn) {
  auto* x = F(f, fn); checkBuf(b, n, t, fn); point(PT_FILE, fn);
  if (off && *off < 0) vfail("mpi-error", std::string(fn) + ": negative offset");
  if (coll) fileColl(x, C_FREAD, fn);
  auto& v = x->view[crank(x->comm)];
  MPI_Offset at = off ? *off * (MPI_Offset)esize(x) : v.pos;
  std::vector<char> d;
  int e = (x->amode & (MPI_MODE_RDONLY | MPI_MODE_RDWR)) ? frd(x, at, d, t->size * (size_t)n) : MPI_ERR_ACCESS;
  if (coll && !e && W.o.eofPadsZero) d.resize(t->size * (size_t)n, 0);
  if (!off) v.pos += d.size();
  if (!e) unpackTo(W.cur, b, t, d.data(), d.size());
  if (st) { *st = emptyStatus(); st->_ucount = d.size(); }
  return e;
}
extern "C" {
int MPI_File_seek(MPI_File f, MPI_Offset o, int w) { auto* x = F(f, __func__); auto& v = x->view[crank(x->comm)]; MPI_Offset b = o * (MPI_Offset)esize(x); if (w == MPI_SEEK_SET) v.pos = b; else if (w == MPI_SEEK_CUR) v.pos += b; else { struct stat st; fstat(x->fd, &st); v.pos = st.st_size - v.disp + b; } return 0; }
int MPI_File_get_position(MPI_File f, MPI_Offset* o) { auto* x = F(f, __func__); *o = x->view[crank(x->comm)].pos / (MPI_Offset)esize(x); return 0; }
int MPI_File_sync(MPI_File f) { auto* x = F(f, __func__); fileColl(x, C_FOTHER, __func__); return 0; }
int MPI_File_set_atomicity(MPI_File f, int) { auto* x = F(f, __func__); fileColl(x, C_FOTHER, __func__); return 0; }
int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return doWrite(f, nullptr, b, n, t, s, false, __func__); }
int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return doWrite(f, nullptr, b, n, t, s, true, __func__); }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return doWrite(f, &o, b, n, t, s, false, __func__); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return doWrite(f, &o, b, n, t, s, true, __func__); }
int MPI_File_read(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { return doRead(f, nullptr, b, n, t, s, false, __func__); }
int MPI_File_read_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { return doRead(f, nullptr, b, n, t, s, true, __func__); }
int MPI_File_read_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return doRead(f, &o, b, n, t, s, false, __func__); }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return doRead(f, &o, b, n, t, s, true, __func__); }
int MPI_File_iwrite_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Request* r) { int e = doWrite(f, &o, b, n, t, nullptr, false, __func__); *r = newReq(RQ_SEND, "iwrite_at"); (*r)->complete = true; return e; }
int MPI_File_iread_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Request* r) { int e = doRead(f, &o, b, n, t, nullptr, false, __func__); *r = newReq(RQ_SEND, "iread_at"); (*r)->complete = true; return e; }
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return 0; }
}
