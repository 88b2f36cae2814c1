#include <mpi.h>
#include <cstdio>
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  int p[1] = {1}, per[1] = {1}; MPI_Comm cart; MPI_Cart_create(MPI_COMM_WORLD, 1, p, per, 0, &cart);
  OwningDistributedFullGrid<double> g(1, LevelVector{14}, cart, {2}, std::vector<int>{1}, false);
  const long n = g.getNrLocalElements();
  int wrong = 0;
  for (int it = 0; it < 20000 && !wrong; ++it) {
    const long T = 8, per = n / T + 1;
    for (long i = 0; i < n; ++i) {  // values increase in the block of every thread
      long b = i / per;
      g.getData()[i] = 1. + double((i % per) * T + (b + it) % T);
    }
    double e = 0; for (long i = 0; i < n; ++i) e = std::max(e, std::abs(g.getData()[i]));
    if (g.getLpNorm(0) != e) ++wrong;
  }
  printf("wrong %d\n", wrong);
  MPI_Finalize();
  return wrong != 0;
}
