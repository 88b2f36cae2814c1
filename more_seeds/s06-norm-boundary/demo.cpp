#include <mpi.h>
#include <cstdio>
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  int p[1] = {1}, per[1] = {1}; MPI_Comm cart; MPI_Cart_create(MPI_COMM_WORLD, 1, p, per, 0, &cart);
  OwningDistributedFullGrid<double> g(1, LevelVector{3}, cart, {1}, std::vector<int>{1}, false);
  for (int i = 0; i < g.getNrLocalElements(); ++i) g.getData()[i] = 2.;
  double n = g.getLpNorm(1); printf("integral of 2 is %g\n", n);
  MPI_Finalize();
  return !(std::abs(n - 2.) < 1e-12);
}
