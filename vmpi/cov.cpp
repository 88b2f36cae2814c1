// Coverage of the library by the drivers (build flavor "cov", tools/coverage.py): one byte per instrumented address
// in a file shared by all worker processes; lives here because the drivers' own data is swapped per virtual rank.
#include <fcntl.h>
#include <link.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
namespace {
unsigned char* map_;
uintptr_t base_;
const size_t SIZE = 256u << 20;
int first(struct dl_phdr_info* i, size_t, void*) { base_ = i->dlpi_addr; return 1; }
__attribute__((constructor)) void open_() {
  const char* f = getenv("VMPI_COV");
  if (!f) return;
  int fd = open(f, O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, SIZE)) return;
  dl_iterate_phdr(first, nullptr);
  void* p = mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p != MAP_FAILED) map_ = (unsigned char*)p;
  close(fd);
}
}  // namespace
extern "C" void __sanitizer_cov_trace_pc() {
  if (!map_) return;
  uintptr_t a = (uintptr_t)__builtin_return_address(0) - base_;
  if (a < SIZE && !map_[a]) map_[a] = 1;
}
