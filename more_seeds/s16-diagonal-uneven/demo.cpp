#include <mpi.h>
#include <cstdio>
#include "mpi/MPISystem.hpp"
using namespace combigrid;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 2, 3, false, false);
  int present[3] = {0, 0, 0}, sum[3];
  if (theMPISystem()->getOutputGroupComm() != MPI_COMM_NULL) present[theMPISystem()->getLocalRank()] = 1;
  MPI_Allreduce(present, sum, 3, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  int bad = sum[0] != 1 || sum[1] != 1 || sum[2] != 1;
  MPI_Finalize();
  return bad;
}
