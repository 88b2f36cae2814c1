#include <mpi.h>
#include <cmath>
#include "fullgrid/DistributedFullGrid.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
#include "mpi/MPICartesianUtils.hpp"
#include "utils/Stats.hpp"
using namespace combigrid;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  Stats::initialize();
  int bad = 0;
  {
    FullWeightingBasisFunction b;
    CommunicatorType comm;
    int dims[2] = {1, 1}, per[2] = {1, 1};
    MPI_Cart_create(MPI_COMM_WORLD, 2, dims, per, 0, &comm);
    OwningDistributedFullGrid<double> g(2, {4, 3}, comm, {2, 2}, {1, 1}, false);
    for (int i = 0; i < g.getNrLocalElements(); ++i) g.getData()[i] = std::sin(1. + i * i);
    DistributedHierarchization::hierarchize(g, {true, true}, {&b, &b}, {2, 1});
    DistributedHierarchization::dehierarchize(g, {true, true}, {&b, &b}, {2, 1});
    for (int i = 0; i < g.getNrLocalElements(); ++i)
      if (!(std::abs(g.getData()[i] - std::sin(1. + i * i)) < 1e-10)) bad = 1;
  }
  Stats::finalize();
  MPI_Finalize();
  return bad;
}
