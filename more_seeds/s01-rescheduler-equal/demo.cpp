#include <mpi.h>
#include <cstdio>
#include "loadmodel/AverageOfLastNLoadModel.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "rescheduler/RebalancingTaskRescheduler.hpp"
using namespace combigrid;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  std::vector<LevelVector> t = {{1, 1}, {1, 2}, {2, 1}, {2, 2}};
  AverageOfLastNLoadModel lm(3, t, std::make_unique<LinearLoadModel>());
  std::map<LevelVector, int> g = {{t[0], 0}, {t[1], 0}, {t[2], 1}, {t[3], 1}};
  std::map<LevelVector, unsigned long> d = {{t[0], 100}, {t[1], 0}, {t[2], 100}, {t[3], 0}};
  for (size_t i = 0; i < 4; i += 2) { DurationInformation x; x.task_id = i; x.duration = 100; x.nProcesses = 1; lm.addDurationInformation(x, t[i]); }
  RebalancingTaskRescheduler r(5, 1.0);
  size_t n = r.eval(g, d, &lm).size();
  printf("%zu moves\n", n);
  MPI_Finalize();
  return n != 0;
}
