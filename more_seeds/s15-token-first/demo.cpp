#include <mpi.h>
#include <unistd.h>
#include <cstdio>
static int early = 0, writes = 0;
static bool tok() { return access("token", F_OK) == 0 || access("token.part0", F_OK) == 0; }
static void look() { ++writes; if (tok()) early = 1; }
extern "C" {
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { look(); return PMPI_File_write_at_all(f, o, b, n, t, s); }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { look(); return PMPI_File_write_at(f, o, b, n, t, s); }
int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { look(); return PMPI_File_write_all(f, b, n, t, s); }
int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { look(); return PMPI_File_write(f, b, n, t, s); }
}
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/export.hpp>
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "task/Task.hpp"
#include "utils/BoostExports.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
class T : public Task<double> {
 public:
  T(const LevelVector& l, const std::vector<BoundaryType>& b, double c, LoadModel* m) : Task<double>(l, b, c, m) {}
  ~T() override { delete g; }
  void init(CommunicatorType lc, const std::vector<IndexVector>& dec) override { g = new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lc, getBoundary(), {2, 1}, false, dec); for (int i = 0; i < g->getNrLocalElements(); ++i) g->getData()[i] = 3.; }
  void run(CommunicatorType) override { setFinished(true); }
  void setZero() override {}
  DistributedFullGrid<double>& getDistributedFullGrid(size_t = 0) override { return *g; }
  const DistributedFullGrid<double>& getDistributedFullGrid(size_t = 0) const override { return *g; }
  T() {}
 private:
  OwningDistributedFullGrid<double>* g = nullptr;
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); }
};
BOOST_CLASS_EXPORT(T)
int main(int c, char** v) {
  MPI_Init(&c, &v);
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, 2, false, false);
  Stats::initialize();
  int bad = 0;
  {
    ProcessGroupWorker<double> w;
    CombiParameters p(2, {1, 1}, {2, 2}, {2, 2}, 2, 1, CombinationVariant::sparseGridReduce, {2, 1}, LevelVector(0), LevelVector(0), 64, false);
    w.setCombiParameters(std::move(p));
    std::vector<LevelVector> lv{{2, 1}, {1, 2}, {1, 1}}; std::vector<double> co{1, 1, -1};
    for (size_t i = 0; i < 3; ++i) w.initializeTask(std::make_unique<T>(lv[i], std::vector<BoundaryType>{2, 2}, co[i], nullptr));
    w.initCombinedDSGVector(); w.zeroDsgsData();
    w.combineSystemWide();
    w.writeDSGsToDisk("dsg", "token");
    MPI_Barrier(MPI_COMM_WORLD);
    bad = early || !writes || !tok();
  }
  Stats::finalize();
  int any; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize();
  return any;
}
