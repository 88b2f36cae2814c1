#include <mpi.h>
#include <glpk.h>
#include <cstdio>
#include <set>
#include "combischeme/CombiMinMaxScheme.hpp"
#include "fault_tolerance/LPOptimizationInterpolation.hpp"
using namespace combigrid;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  glp_term_out(GLP_OFF); std::cout.setstate(std::ios::failbit);
  LevelVector lmin{1, 1}, lmax{5, 5};
  CombiMinMaxScheme s(2, lmin, lmax); s.createClassicalCombischeme(); s.makeFaultTolerant();
  auto grids = s.getCombiSpaces(); auto co = s.getCoeffs();
  long bad = 0, n = grids.size(), used = 0;
  for (long a = 0; a < n; ++a) for (long b = a + 1; b < n; ++b) for (long d = b + 1; d < n; ++d) {
    CombigridDict dict; for (long k = 0; k < n; ++k) dict[grids[k]] = co[k];
    LevelVectorList fl{grids[a], grids[b], grids[d]};
    LP_OPT_INTERP lp({lmin, lmax}, 2, GLP_MAX, dict, fl);
    if (lp.getNumFaults() == 0) continue;
    lp.init_opti_prob("p"); lp.set_constr_matrix(); lp.solve_opti_problem();
    LevelVectorList again; auto r = lp.get_results(again); ++used;
    std::set<LevelVector> re(again.begin(), again.end());
    for (auto k : {a, b, d}) if (r[grids[k]] != 0 && !re.count(grids[k])) ++bad;
  }
  fprintf(stderr, "cases %ld bad %ld\n", used, bad);
  MPI_Finalize();
  return bad != 0;
}
