#pragma once
#include "vmpi.hpp"
#include "mpi.h"
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <memory>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

struct Seg { ptrdiff_t off; int basic; long n; };
enum Basic { B_CHAR, B_SCHAR, B_UCHAR, B_BYTE, B_SHORT, B_USHORT, B_INT, B_UINT, B_LONG, B_ULONG,
             B_LL, B_ULL, B_FLOAT, B_DOUBLE, B_LDOUBLE, B_BOOL, B_CF, B_CD, B_PACKED, B_DI, B_FI, B_2I, B_LI, B_N };
extern const size_t vmpi_basic_size[];

struct vmpi_datatype {
  std::string name;
  size_t size = 0;
  ptrdiff_t lb = 0, ub = 0, tlb = 0, tub = 0;
  std::vector<Seg> segs;
  int basic = -1;
  bool committed = false, freed = false;
  int combiner = MPI_COMBINER_NAMED;
  std::vector<int> ints; std::vector<MPI_Aint> aints; std::vector<MPI_Datatype> types;
  ptrdiff_t extent() const { return ub - lb; }
  vmpi_datatype() {}
  vmpi_datatype(const char* nm, int b);
};
struct vmpi_op { std::string name; int id = -1; MPI_User_function* fn = nullptr; bool commute = true; bool freed = false; };
struct vmpi_group { std::vector<int> members; };
struct vmpi_errhandler { int kind; };
struct vmpi_info { std::map<std::string, std::string> kv; };
struct vmpi_message { int dummy; };
struct vmpi_win { int dummy; };

struct Coll;
struct vmpi_comm {
  int id = 0;
  std::string name;
  std::vector<int> members;              // world ranks
  std::map<int, int> rankOf;             // world rank -> comm rank
  std::vector<long> seq;                 // next collective index by comm rank
  std::map<long, std::shared_ptr<Coll>> colls;
  bool cart = false;
  std::vector<int> dims, periods;
  std::set<int> freedBy;
  void setMembers(const std::vector<int>& m) {
    members = m; rankOf.clear();
    for (size_t i = 0; i < m.size(); ++i) rankOf[m[i]] = (int)i;
    seq.assign(m.size(), 0); colls.clear(); freedBy.clear();
  }
};

struct Msg {
  vmpi_comm* comm; int src, dst, tag; long seq;
  int srcW, dstW;
  const void* buf; int count; MPI_Datatype type;
  bool captured = false; std::vector<char> data;
  std::vector<std::pair<int,long>> sig;
  bool matched = false; bool eager = false;
  vmpi_request* req = nullptr;
  size_t bytes = 0;
};
enum ReqKind { RQ_SEND, RQ_RECV, RQ_COLL, RQ_DONE };
struct vmpi_request {
  ReqKind kind; int owner; bool complete = false; bool freed = false; bool delivered = false;
  MPI_Status st{};
  // send / recv
  std::shared_ptr<Msg> msg;
  vmpi_comm* comm = nullptr; int peer = 0, tag = 0; void* buf = nullptr; int count = 0; MPI_Datatype type = nullptr;
  long postSeq = 0; bool wild = false; bool matched = false;
  std::vector<char> data; std::vector<std::pair<int,long>> sig;
  // coll
  std::shared_ptr<Coll> coll; int cr = 0;
  // persistent
  bool persistent = false, active = false, psend = false;
  std::string descr;
};

enum CollKind { C_BARRIER, C_BCAST, C_GATHER, C_SCATTER, C_ALLGATHER, C_ALLTOALL, C_REDUCE, C_ALLREDUCE,
                C_REDSCAT, C_SCAN, C_EXSCAN, C_SPLIT, C_DUP, C_CREATE, C_CART, C_CARTSUB, C_FREE, C_FOPEN, C_FCLOSE,
                C_FVIEW, C_FWRITE, C_FREAD, C_FOTHER, C_FINALIZE };
struct CollArg {
  bool arrived = false, nonblock = false, captured = false, delivered = false;
  const void* sbuf = nullptr; int scount = 0; MPI_Datatype stype = nullptr;
  void* rbuf = nullptr; int rcount = 0; MPI_Datatype rtype = nullptr;
  std::vector<int> scounts, sdispls, rcounts, rdispls; bool vv = false;
  MPI_Op op = nullptr; int root = 0;
  std::vector<char> contrib;               // packed contribution
  std::vector<std::vector<char>> parts;    // scatter / alltoall: by destination
  int color = 0, key = 0; std::vector<int> grp; std::vector<int> dims, periods; bool hasGroup = false;
  std::string fname; int amode = 0;
  vmpi_comm* newcomm = nullptr; int err = 0; vmpi_file* file = nullptr;
};
struct Coll {
  CollKind kind; int root = -1; bool nonblock = false; int narrived = 0; vmpi_comm* comm; long seq;
  std::vector<CollArg> a;
  bool computed = false; std::vector<char> result; std::vector<std::vector<char>> prefix;
  bool built = false;
};
struct vmpi_file {
  std::map<int, int> setSizes; int setSizesDone = 0;   // MPI_File_set_size: calls per rank, executed
  vmpi_comm* comm; std::string name; int fd = -1; int amode = 0; int nclosed = 0;
  struct View { MPI_Offset disp = 0; MPI_Datatype etype = nullptr, ftype = nullptr; MPI_Offset pos = 0; };
  std::vector<View> view;
  std::set<int> closedBy;
};
