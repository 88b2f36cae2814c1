#include <mpi.h>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/export.hpp>
#include <cstdio>
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/ProcessManager.hpp"
#include "task/Task.hpp"
#include "utils/BoostExports.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
class T : public Task<double> {
 public:
  T(const LevelVector& l, const std::vector<BoundaryType>& b, double c, LoadModel* m) : Task<double>(l, b, c, m) {}
  ~T() override { delete g; }
  void init(CommunicatorType lc, const std::vector<IndexVector>& dec) override { g = new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lc, getBoundary(), {1, 2}, false, dec); for (int i = 0; i < g->getNrLocalElements(); ++i) g->getData()[i] = double(getLevelVector()[0] + 2); }
  void run(CommunicatorType) override { ++steps; setFinished(true); }
  void setZero() override {}
  DistributedFullGrid<double>& getDistributedFullGrid(size_t = 0) override { return *g; }
  const DistributedFullGrid<double>& getDistributedFullGrid(size_t = 0) const override { return *g; }
  T() {}
  int steps = 0;
 private:
  OwningDistributedFullGrid<double>* g = nullptr;
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); ar& steps; }
};
BOOST_CLASS_EXPORT(T)
int main(int c, char** v) {
  MPI_Init(&c, &v);
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 2, 2, true, false);
  Stats::initialize();
  int bad = 0;
  WORLD_MANAGER_EXCLUSIVE_SECTION {
    ProcessGroupManagerContainer<double> pgs; for (int i = 0; i < 2; ++i) pgs.emplace_back(std::make_shared<ProcessGroupManager<double>>(i));
    std::vector<LevelVector> lv{{3, 1}, {2, 2}, {1, 3}, {2, 1}, {1, 2}}; std::vector<double> co{1, 1, 1, -1, -1}; std::vector<size_t> ids;
    TaskContainer<double> ts; auto lm = std::unique_ptr<LoadModel>(new LinearLoadModel());
    for (size_t i = 0; i < 5; ++i) { auto* t = new T(lv[i], {2, 2}, co[i], lm.get()); ts.push_back(t); ids.push_back(t->getID()); }
    CombiParameters p(2, {1, 1}, {3, 3}, {2, 2}, lv, co, ids, 2, 1, CombinationVariant::sparseGridReduce, {1, 2}, LevelVector(0), LevelVector(0), 1024, false, "", 0, 1);
    ProcessManager<double> m(pgs, ts, p, std::move(lm));
    m.updateCombiParameters(); m.runfirst(); m.pretendUnifySubspaceSizesThirdLevel(); m.pretendCombineThirdLevelForWorkers();
    // (5 + 4 + 3) - (4 + 3) = 5 everywhere
    auto r = m.interpolateValues({{0.5, 0.5}, {0.3, 0.9}, {0.125, 0.25}});
    for (double x : r) if (std::abs(x - 5.) > 1e-10) bad = 1;
    m.exit();
  } else {
    ProcessGroupWorker<double> w; SignalType s = -1; while (s != EXIT) { s = w.wait();
      if (s == COMBINE_THIRD_LEVEL || s == WAIT_FOR_TL_COMBI_RESULT) for (auto& t : w.getTasks()) { auto& g = t->getDistributedFullGrid(); for (int i = 0; i < g.getNrLocalElements(); ++i) if (std::abs(g.getData()[i] - 5.) > 1e-10) bad = 1; } }
  }
  Stats::finalize();
  int any; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize();
  return any;
}
