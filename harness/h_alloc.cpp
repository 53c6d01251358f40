// C18, C19: the linear and the stack allocator.
#include "cs.hpp"
#include <cassert>
#include <cstdint>
#include <limits>
#include <new>
#include <optional>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
#include <co_ecs/detail/allocator/stack_allocator.hpp>
using namespace co_ecs::detail;
struct block { uintptr_t p; size_t n; bool live; };
static unsigned al(unsigned maxlog) { return 1u << cs_concretize(cs::choice("log2(alignment)", maxlog + 1)); }
ENTRY(c18_linear) {
  alignas(4096) static char mem[3 * 4096]; size_t off = cs_sym("start", cs_param("startbits", 6)), size = cs_sym("buffer", cs_param("bufbits", 12)); char* start = mem + off; linear_allocator a(start, size); const uintptr_t lo = (uintptr_t)start, hi = lo + size;
  block b[6]; unsigned nb = 0, k = cs_param("requests", 3), maxlog = cs_param("maxlog", 6);
  for (unsigned i = 0; i < k; i++) {
    if (i && cs::choice("reset", 2)) { a.reset(); for (unsigned j = 0; j < nb; j++) b[j].live = false; }
    size_t n = cs_sym("bytes", cs_param("bits", 64)); unsigned A = al(maxlog); uintptr_t top = lo; for (unsigned j = 0; j < nb; j++) if (b[j].live && b[j].p + b[j].n > top) top = b[j].p + b[j].n;
    uintptr_t p = (uintptr_t)a.allocate(n, A);
    if (!p) { uintptr_t q = (top + A - 1) & ~(uintptr_t)(A - 1); CHECKM(q > hi || n > hi - q, "a request that fits was refused"); cs_reach("refused"); continue; }
    CHECKM((p & (A - 1)) == 0, "a block is not aligned as requested"); CHECKM(p >= lo, "a block starts before the buffer"); CHECKM(p <= hi && n <= hi - p, "a block leaves the buffer");
    for (unsigned j = 0; j < nb; j++) CHECKM(!b[j].live | (p + n <= b[j].p) | (b[j].p + b[j].n <= p) | (n == 0) | (b[j].n == 0), "two blocks overlap");
    b[nb++] = block{ p, n, true }; cs_reach("granted"); }
  cs_reach("end");
}

// Sizes of buffer and requests stay symbolic; only the address a header is written to is split into cases.
ENTRY(c19_stack) {
  const unsigned cap = cs_param("cap", 24), k = cs_param("requests", 4), maxlog = cs_param("maxlog", 3); static constexpr unsigned N = 1024; alignas(256) static unsigned char mem[N]; for (auto& x : mem) x = 0x5C;
  const size_t size = cs_sym("buffer", 16); cs_assume(size <= cap); const size_t off = 256 + cs_concretize(cs::choice("start", cs_param("starts", 2))); unsigned char* start = mem + off;
  std::optional<stack_allocator> a; a.emplace(start, size); block b[8]; size_t before[8]; unsigned nb = 0;
  CHECKM(a->remaining() == size, "a new allocator has its whole buffer available");
  static unsigned char shadow[N]; for (auto& x : shadow) x = 0x5C;
  auto intact = [&] { for (size_t q = 0; q < N; q++) if (mem[q] != shadow[q]) { shadow[q] = mem[q]; CHECKM(q >= off && q < off + size, "memory outside the buffer was touched"); for (unsigned j = 0; j < nb; j++) CHECKM(!(((uintptr_t)(mem + q) >= b[j].p) & ((uintptr_t)(mem + q) < b[j].p + b[j].n)), "an allocated block was overwritten"); } };
  for (unsigned i = 0; i < k; i++) {
    unsigned op = nb == 0 ? cs::choice("op", 3) : 3 + cs::choice("op", 4); // 0/3 allocate, 1/4 reset, 2/5 move, 6 release the newest
    if (op == 0 || op == 3) { unsigned A = al(maxlog); size_t n = cs_sym("bytes", cs_param("bits", 64)), rem = a->remaining(); uintptr_t p = (uintptr_t)a->allocate(n, A);
      if (!p) { CHECKM(a->remaining() == rem, "a refused request changed the allocator"); CHECKM((n > rem) | (n + A > rem), "a request that fits was refused"); intact(); cs_reach("refused"); continue; }
      CHECKM((p & (A - 1)) == 0, "a block is not aligned as requested"); CHECKM(p >= (uintptr_t)start, "a block starts before the buffer"); CHECKM((p <= (uintptr_t)start + size) && n <= (uintptr_t)start + size - p, "a block leaves the buffer");
      for (unsigned j = 0; j < nb; j++) CHECKM((p + n <= b[j].p) | (b[j].p + b[j].n <= p) | (n == 0) | (b[j].n == 0), "two blocks overlap");
      CHECKM(a->remaining() <= rem - n, "an allocated block is still counted as available"); before[nb] = rem; b[nb++] = block{ p, n, true }; intact(); cs_reach("granted"); }
    else if (op == 6) { nb--; a->deallocate((void*)b[nb].p); CHECKM(a->remaining() == before[nb], "releasing a block does not return exactly its space"); intact(); cs_reach("released"); }
    else if (op == 1 || op == 4) { a->reset(); nb = 0; CHECKM(a->remaining() == size, "reset makes the whole buffer available"); }
    else { size_t rem = a->remaining(); if (cs::choice("how", 2)) { stack_allocator t(std::move(*a)); a.emplace(std::move(t)); } else { static unsigned char other[32]; stack_allocator t(other, 32); t.allocate(5, 1); t = std::move(*a); a.emplace(std::move(t)); } CHECKM(a->remaining() == rem, "moving the allocator changed what is available"); intact(); cs_reach("moved"); } }
  while (nb) { nb--; a->deallocate((void*)b[nb].p); CHECKM(a->remaining() == before[nb], "releasing a block does not return exactly its space"); intact(); }
  cs_reach("end");
}
