// Callbacks of the compiler's thread-sanitizer instrumentation: every access of instrumented code is
// handed to the race monitor of the virtual OpenMP runtime. Linked into the instrumented drivers only.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>
namespace vmpi {
void raceAccess(uintptr_t a, size_t n, bool write, bool atomic, void* pc);
void raceForget(uintptr_t a, size_t n);
void raceSkip(int);
}
#define PC __builtin_return_address(0)
extern "C" char __executable_start, etext;
// block operations called by the runtime libraries and the explorer itself do not count
#define FROM_PROGRAM ((char*)PC >= &__executable_start && (char*)PC < &etext)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { vmpi::raceAccess((uintptr_t)p, N, false, false, PC); } \
  void __tsan_write##N(void* p) { vmpi::raceAccess((uintptr_t)p, N, true, false, PC); } \
  void __tsan_unaligned_read##N(void* p) { vmpi::raceAccess((uintptr_t)p, N, false, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { vmpi::raceAccess((uintptr_t)p, N, true, false, PC); } \
  void __tsan_volatile_read##N(void* p) { vmpi::raceAccess((uintptr_t)p, N, false, false, PC); } \
  void __tsan_volatile_write##N(void* p) { vmpi::raceAccess((uintptr_t)p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { vmpi::raceAccess((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { vmpi::raceAccess((uintptr_t)p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { vmpi::raceAccess((uintptr_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { vmpi::raceAccess((uintptr_t)p, 8, false, false, PC); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), false, true, PC); return *a; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { vmpi::raceAccess((uintptr_t)a, sizeof(T), true, true, PC); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// block operations are calls and not instrumented themselves
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  if (FROM_PROGRAM) { vmpi::raceAccess((uintptr_t)s, n, false, false, PC); vmpi::raceAccess((uintptr_t)d, n, true, false, PC); }
  void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
void* memset(void* d, int c, size_t n) {
  if (FROM_PROGRAM) { vmpi::raceAccess((uintptr_t)d, n, true, false, PC); }
  void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (FROM_PROGRAM) { vmpi::raceAccess((uintptr_t)s, n, false, false, PC); vmpi::raceAccess((uintptr_t)d, n, true, false, PC); }
  void* r = d;
  if ((uintptr_t)d <= (uintptr_t)s || (uintptr_t)d >= (uintptr_t)s + n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else { auto* x = (unsigned char*)d; auto* y = (const unsigned char*)s; for (size_t i = n; i-- > 0;) { x[i] = y[i]; __asm__ volatile("" ::: "memory"); } }
  return r;
}
// initialisation of function-local statics happens once and before every use
int __cxa_guard_acquire(uint64_t* g) { if (*(unsigned char*)g) return 0; vmpi::raceSkip(1); return 1; }
void __cxa_guard_release(uint64_t* g) { *(unsigned char*)g = 1; vmpi::raceSkip(-1); }
void __cxa_guard_abort(uint64_t*) { vmpi::raceSkip(-1); }
}
// memory that is given back and handed out again is new memory
static void* al(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); vmpi::raceForget((uintptr_t)p, malloc_usable_size(p)); return p; }
static void de(void* p) { if (!p) return; vmpi::raceForget((uintptr_t)p, malloc_usable_size(p)); free(p); }
void* operator new(size_t n) { return al(n); }
void* operator new[](size_t n) { return al(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return al(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return al(n); }
void operator delete(void* p) noexcept { de(p); }
void operator delete[](void* p) noexcept { de(p); }
void operator delete(void* p, size_t) noexcept { de(p); }
void operator delete[](void* p, size_t) noexcept { de(p); }
