#pragma once
#include "vmpi_internal.hpp"
namespace vmpi {
enum RState { READY, RUNNING, BLOCKED, SPINNING, DONE };
struct Ctx { void* sp = nullptr; };
struct RankT {
  int id; RState st = READY; Ctx ctx; char* stack = nullptr;
  std::vector<char> img;       // data segment image while not loaded
  std::vector<char> tls;
  bool started = false;
  std::function<bool()> pred; std::string why;
  long spinSeen = -1; int idle = 0;
  bool initialized = false, finalized = false;
  void* eh[2] = {nullptr, nullptr};
  std::vector<std::vector<char>> ompTls;  // per thread > 0
};
struct World {
  bool active = false;
  Options o; const std::function<void(int)>* body = nullptr;
  std::vector<std::unique_ptr<RankT>> r;
  int cur = -1;                 // running rank
  int last = -1;
  Ctx sched;
  Result res; std::vector<int> prefix; size_t pos = 0; int devs = 0;
  bool aborted = false; bool expectExit = false;
  long event = 0; double clock = 0;
  long postSeq = 0, msgSeq = 0; int nextComm = 2;
  std::vector<std::shared_ptr<Msg>> msgs;          // pending, unmatched
  std::vector<vmpi_request*> recvs;                // posted, unmatched
  std::unordered_set<vmpi_request*> live;
  std::vector<vmpi_comm*> comms; std::vector<vmpi_file*> files; std::vector<vmpi_datatype*> types;
  std::set<vmpi_comm*> commSet; std::set<vmpi_file*> fileSet;
  uint64_t outcome = 0; long ompRegions = 0;
  struct Probe { int rank; vmpi_comm* comm; int src, tag; std::shared_ptr<Msg>* out; };
  std::vector<Probe> probes;
};
extern World W;
int chooseK(char kind, int n, int cost);
void point(unsigned mask, const char* why);
void block(const std::function<bool()>& p, const std::string& why);
void spinYield(const std::string& why);
[[noreturn]] void vfail(const std::string& kind, const std::string& msg);
void* xlate(int rank, const void* p, size_t len);
RankT& me();
std::string sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
bool quiescentWild();   // resolve one wildcard match; mpi.cpp
void resetMpi();        // mpi.cpp
void finishMpi();       // leak checks; mpi.cpp
}  // namespace vmpi
