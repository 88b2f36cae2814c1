#include <mpi.h>
#include <cmath>
#include <cstdio>
#include "fullgrid/DistributedFullGrid.hpp"
#include "utils/DecompositionUtils.hpp"
using namespace combigrid;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  int bad = 0;
  for (int L = 2; L <= 5; ++L) for (int l = 1; l <= L; ++l) for (int cut = 1; cut < (1 << L) - 1; ++cut) {
    auto r = downsampleDecomposition({{0, cut}}, {L}, {l}, {0});
    // a point of the coarse grid belongs to the process that owns it in the fine grid
    for (int i = 0; i < (1 << l) - 1; ++i) {
      int fine = (i + 1) * (1 << (L - l)) - 1;
      if ((fine >= cut) != (i >= r[0][1])) ++bad;
    }
  }
  printf("bad %d\n", bad);
  MPI_Finalize();
  return bad != 0;
}
