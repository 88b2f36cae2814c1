#include "vmpi.hpp"
#include <mpi.h>
#include <cstddef>
#include "body.inc"
int main(int c, char** v) {
  int n = atoi(v[2]); int bad = 0;
  for (int m = 0; m < 8; ++m) {
    std::vector<std::string> out(n); vmpi::Options o; o.nranks = n; o.lateDelivery = m & 1; o.syncColl = !(m & 2); o.reverseSched = m & 4; o.reduceOrder = m & 1;
    std::string dir = v[1]; auto* po = &out;
    vmpi::Result R = vmpi::run(o, [=](int r) { std::string s; conf(s, dir); (*po)[r] = s; });
    if (!R.ok) { printf("mode %d: %s %s\n", m, R.kind.c_str(), R.msg.c_str()); bad = 1; continue; }
    for (int r = 0; r < n; ++r) { std::string f = dir + "/virt-" + std::to_string(n) + "-" + std::to_string(r) + "-" + std::to_string(m); FILE* p = fopen(f.c_str(), "w"); fputs(out[r].c_str(), p); fclose(p); }
  }
  return bad;
}
