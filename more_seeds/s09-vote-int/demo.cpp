#include <mpi.h>
#include <cstdio>
#include "sparsegrid/AnyDistributedSparseGrid.hpp"
using namespace combigrid;
struct Any : AnyDistributedSparseGrid { using AnyDistributedSparseGrid::AnyDistributedSparseGrid; };
int main(int c, char** v) {
  MPI_Init(&c, &v);
  int rank, size; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
  MPI_Comm self; MPI_Comm_dup(MPI_COMM_SELF, &self);
  AnyDistributedSparseGrid g(3, self);
  // subspace 0: ranks 0 and 1; subspace 1: ranks 31 and 33; subspace 2: nobody
  if (rank < 2) g.setDataSize(0, 5);
  if (rank == 31 || rank == 33) g.setDataSize(1, 7);
  g.setSubspaceCommunicators(MPI_COMM_WORLD, rank);
  int bad = 0; int n = 0;
  for (auto& sc : g.getSubspacesByCommunicator()) {
    int s = 0; MPI_Comm_size(sc.first, &s); ++n;
    if (s != 2) bad = 1;
    for (auto i : sc.second) if (i == 2) bad = 1;
  }
  bool member = rank < 2 || rank == 31 || rank == 33;
  if (member && n != 1) bad = 1;
  if (!member && n != 0) bad = 1;
  int any; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (!rank) printf("bad %d\n", any);
  g.clearSubspaceCommunicators();
  MPI_Finalize();
  return any;
}
