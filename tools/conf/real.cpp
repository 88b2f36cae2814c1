#include <mpi.h>
#include <cstddef>
#include "body.inc"
int main(int c, char** v) {
  MPI_Init(&c, &v); int r, n; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm_size(MPI_COMM_WORLD, &n);
  std::string o; conf(o, v[1]);
  std::string f = std::string(v[1]) + "/out-" + std::to_string(n) + "-" + std::to_string(r); FILE* p = fopen(f.c_str(), "w"); fputs(o.c_str(), p); fclose(p); MPI_Finalize();
}
