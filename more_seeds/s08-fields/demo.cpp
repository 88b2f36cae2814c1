#include <mpi.h>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/export.hpp>
#include <cmath>
#include <cstdio>
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "task/Task.hpp"
#include "utils/BoostExports.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
class T : public Task<double> {
 public:
  T(const LevelVector& l, const std::vector<BoundaryType>& b, double c, LoadModel* m) : Task<double>(l, b, c, m) {}
  void init(CommunicatorType lc, const std::vector<IndexVector>& dec) override {
    for (int f = 0; f < 2; ++f) {
      g[f].reset(new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lc, getBoundary(), {1, 1}, false, dec));
      for (int i = 0; i < g[f]->getNrLocalElements(); ++i) g[f]->getData()[i] = 3. + 4. * f;
    }
  }
  void run(CommunicatorType) override { setFinished(true); }
  void setZero() override {}
  DistributedFullGrid<double>& getDistributedFullGrid(size_t f = 0) override { return *g[f]; }
  const DistributedFullGrid<double>& getDistributedFullGrid(size_t f = 0) const override { return *g[f]; }
  T() {}
  std::unique_ptr<OwningDistributedFullGrid<double>> g[2];
 private:
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); }
};
BOOST_CLASS_EXPORT(T)
int main(int c, char** v) {
  MPI_Init(&c, &v);
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 2, 1, false, false);
  Stats::initialize();
  int bad = 0;
  {
    ProcessGroupWorker<double> w;
    CombiParameters p(2, {1, 1}, {3, 3}, {2, 2}, 2, 2, CombinationVariant::sparseGridReduce, {1, 1});
    w.setCombiParameters(std::move(p));
    std::vector<LevelVector> lv{{3, 1}, {2, 2}, {1, 3}, {2, 1}, {1, 2}};
    std::vector<double> co{1, 1, 1, -1, -1};
    LinearLoadModel lm;
    for (size_t i = 0; i < 5; ++i)
      if (int(i % 2) == theMPISystem()->getProcessGroupNumber())
        w.initializeTask(std::unique_ptr<Task<double>>(new T(lv[i], {2, 2}, co[i], &lm)));
    w.initCombinedDSGVector();
    w.runAllTasks();
    w.combineAtOnce();
    for (auto& t : w.getTasks())
      for (int f = 0; f < 2; ++f)
        for (int i = 0; i < t->getDistributedFullGrid(f).getNrLocalElements(); ++i)
          if (std::abs(t->getDistributedFullGrid(f).getData()[i] - 3. - 4. * f) > 1e-12) bad = 1;
  }
  Stats::finalize();
  int any; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize();
  return any;
}
