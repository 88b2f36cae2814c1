// Replaces the global operators new/delete: every block is followed by a guard area that is verified when
// the block is freed and on request. Include in exactly one translation unit of a driver.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include "vmpi.hpp"
namespace canary {
struct alignas(16) Head { size_t n; Head *prev, *next; size_t magic, seq; };
// the state lies outside of the driver's data segment, which every rank has its own copy of
struct State { Head head; bool broken, init; size_t seq, mark; };
inline State& state() {
  State* s = (State*)0x620000000000ul; static bool mapped = false;
  if (!mapped) { mmap(s, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); mapped = true; if (!s->init) { s->head.prev = s->head.next = &s->head; s->init = true; } }
  return *s;
}
inline Head* list() { return &state().head; }
static const unsigned char G = 0xA7; static const size_t MAGIC = 0x5ca1ab1e0ddba11ul;
inline size_t guard(size_t n) { return n < 4096 ? 64 + n : 4096; }
inline bool ok(const Head* h) { const unsigned char* g = (const unsigned char*)(h + 1) + h->n; if (g[0] != G || memcmp(g, g + 1, guard(h->n) - 1)) return false; return h->magic == MAGIC; }
inline bool& broken() { return state().broken; }
inline void* get(size_t n) { Head* h = (Head*)std::malloc(sizeof(Head) + n + guard(n)); if (!h) throw std::bad_alloc(); Head* l = list(); h->n = n; h->magic = MAGIC; h->seq = ++state().seq; h->prev = l; h->next = l->next; l->next->prev = h; l->next = h; memset((unsigned char*)(h + 1) + n, G, guard(n)); return h + 1; }
inline void put(void* p) { if (!p) return; Head* h = (Head*)p - 1; if (!ok(h)) broken() = true; h->magic = 0; h->prev->next = h->next; h->next->prev = h->prev; memset((void*)p, 0xDB, h->n); std::free(h); }
// all blocks allocated after the mark intact?
inline void mark() { state().mark = state().seq; }
inline bool intact() { if (broken()) return false; for (Head* h = list()->next; h != list() && h->seq > state().mark; h = h->next) if (!ok(h)) return false; return true; }
}  // namespace canary
void* operator new(size_t n) { return canary::get(n); }
void* operator new[](size_t n) { return canary::get(n); }
void operator delete(void* p) noexcept { canary::put(p); }
void operator delete[](void* p) noexcept { canary::put(p); }
void operator delete(void* p, size_t) noexcept { canary::put(p); }
void operator delete[](void* p, size_t) noexcept { canary::put(p); }
