#include "vmpi.hpp"
#include "mpi.h"
#include <cstdio>
#include "fullgrid/DistributedFullGrid.hpp"
#include "mpi/MPISystem.hpp"
using namespace combigrid;
int main() {
  vmpi::Options o; o.nranks = 4; 
  vmpi::ExploreStats st; vmpi::Result bad;
  o.rendezvous = true;
  bool ok = vmpi::explore(o, [&](int r) {
    int p; MPI_Comm_rank(MPI_COMM_WORLD, &p);
    int s = 0; MPI_Allreduce(&p, &s, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    if (p > 0) MPI_Send(&p, 1, MPI_INT, 0, 5, MPI_COMM_WORLD);
    else for (int i = 1; i < 4; ++i) { int q; MPI_Status stt; MPI_Recv(&q, 1, MPI_INT, MPI_ANY_SOURCE, 5, MPI_COMM_WORLD, &stt); vmpi::observe(q * 10 + i); if (q != stt.MPI_SOURCE) vmpi::fail("x", "y"); }
    if (s != 6) vmpi::fail("sum", "bad");
    std::vector<int> procs{2, 2}; MPI_Comm c = MPI_COMM_NULL; int per[2] = {0, 0};
    MPI_Cart_create(MPI_COMM_WORLD, 2, procs.data(), per, 0, &c);
    OwningDistributedFullGrid<double> g(2, {3, 3}, c, {2, 2}, procs);
    long n = g.getNrLocalElements(), t = 0; MPI_Allreduce(&n, &t, 1, MPI_LONG, MPI_SUM, c);
    if (t != 81) vmpi::fail("n", std::to_string(t));
  }, st, bad);
  printf("%d exec %ld cp %ld %s %s\n", ok, st.executions, st.choicePoints, bad.kind.c_str(), bad.msg.c_str());
}
