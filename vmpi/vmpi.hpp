// Virtual MPI: explorer-side interface.
//
// N virtual ranks execute as fibers in one OS thread.  All library-level nondeterminism is decided by
// a choice sequence; run() executes one complete schedule, explore() enumerates all schedules with
// at most `bound` deviations from the default answers.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vmpi {

enum PointMask : unsigned { PT_FILE = 1, PT_SEND = 2, PT_RECV = 4, PT_COLL = 8, PT_USER = 16 };

struct Options {
  int nranks = 1;
  bool rendezvous = false;    // standard sends wait for their receiver (no buffering)
  bool sendChoice = false;    // every standard send may deviate from that mode (cost 1)
  bool syncColl = true;       // collectives synchronise strongly; false: as weakly as permitted
  bool lateDelivery = false;  // non-blocking operations read/write user buffers as late as permitted
  bool wildChoice = true;     // branch over senders of wildcard receives and probes
  int wildCost = 0;           // deviation cost of a non-default sender
  bool testChoice = false;    // MPI_Test*/Iprobe may answer "not yet" although complete (cost 1)
  unsigned preemptAt = 0;     // PointMask: where a running rank may be preempted (cost 1)
  bool schedChoice = false;   // which ready rank continues after a block is a choice (cost 1)
  bool reverseSched = false;  // default order of ready ranks: descending
  int reduceOrder = 0;        // 0: ascending contributions, 1: descending
  int ompThreads = 1;         // size of the teams of parallel regions
  bool ompChoice = false;     // order of the team members' shares is a choice (cost 1)
  int ompOrder = 0;           // default order: 0 ascending, 1 descending, 2 interleaved at chunks
  bool leakCheck = true;      // pending messages/requests at the end are violations
  bool checkTypes = true;
  bool eofPadsZero = false;   // collective reads beyond the end give zeros and the full count, as Open MPI's OMPIO does
  long maxSteps = 3000000;
  int idleRounds = 64;        // consecutive no-progress polling rounds before livelock is reported
  int bound = 0;              // deviation bound of explore()
  long maxExec = 1000000;     // cap of explore()
};

struct Result {
  bool ok = true;
  std::string kind, msg;
  std::vector<int> choices;   // chosen alternatives
  std::vector<int> widths;    // number of alternatives
  std::vector<int> costs;     // cost of taking a non-default alternative
  std::vector<char> kinds;    // 's'ched 'w'ild 't'est 'm'ode 'o'mp 'u'ser
  long switches = 0, matches = 0, colls = 0, steps = 0;
  uint64_t outcome = 0;       // hash over observe()d values
};

Result run(const Options& o, const std::function<void(int)>& body,
           const std::vector<int>& prefix = {});

struct ExploreStats {
  long executions = 0, choicePoints = 0, transitions = 0, treeNodes = 0;
  bool capped = false;
};
// Runs all schedules within the bound; stops at the first failing one. `after` (optional) checks each
// complete execution and returns an error text or "".
bool explore(const Options& o, const std::function<void(int)>& body, ExploreStats& st, Result& bad,
             const std::function<std::string(const Result&)>& after = {},
             const std::function<void(const std::vector<int>&)>& before = {});

// ---- callable from inside rank bodies
[[noreturn]] void fail(const std::string& kind, const std::string& msg);
int rank();                    // virtual world rank, -1 outside
int choose(int n, int cost);   // explorer-owned nondeterminism of the driver's environment model
void observe(uint64_t v);      // contributes to the outcome hash (order-insensitive over ranks)
void yieldPoint(const char* why);  // preemption point (PT_USER)
void spin(const char* why);    // polling: resumed when something happened or time passed
void progress();               // something observable happened (wakes spinners)
void blockUntil(const std::function<bool()>& p, const std::string& why);
double now();
bool inRun();
// exits (std::exit, abort, MPI_Abort) of rank code: reported as violation unless expected
void expectExit(bool on);
// fault injection for the virtual file system layer etc. is done by the drivers

// race monitor (only active with the instrumented build)
struct RaceReport { bool found = false; std::string msg; long accesses = 0, regions = 0, count = 0; std::vector<std::pair<void*, void*>> pcs; std::vector<void*> chain; };
RaceReport& races();
void raceReset(bool enable);

// number of parallel regions / worksharing loops that ran with more than one thread
long ompRegions();
}  // namespace vmpi
