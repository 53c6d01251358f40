// Harness interface of the symbolic executor. Under the executor the cs_* functions are intrinsics;
// in a native replay they read the solver's assignment (replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t cs_sym(const char* name, unsigned bits);       // arbitrary value
uint64_t cs_choice(const char* name, uint64_t n);       // arbitrary value in [0,n), concrete on each path
void cs_assume(bool c);
void cs_check(bool c, const char* msg);
void cs_reach(const char* label);
uint64_t cs_concretize(uint64_t v);
void cs_access(const void* p, size_t n);
uint64_t cs_heap_live();
uint64_t cs_block_base(const void* p);                  // the heap block p points into: start, size, guaranteed alignment
uint64_t cs_block_size(const void* p);
uint64_t cs_block_align(const void* p);
uint64_t cs_param(const char* name, uint64_t dflt);
void cs_stop();
void cs_yield();
void cs_quiet(uint64_t on);                               // accesses in between (1 ... 0) are the harness's own and do not count as the program's
void cs_go();                                             // from here on the started threads run concurrently (weak.hpp)
void cs_debug(const char* name, uint64_t v);
}
namespace cs {
inline uint64_t u64(const char* n) { return cs_sym(n, 64); }
inline uint32_t u32(const char* n) { return (uint32_t)cs_sym(n, 32); }
inline uint16_t u16(const char* n) { return (uint16_t)cs_sym(n, 16); }
inline uint8_t u8(const char* n) { return (uint8_t)cs_sym(n, 8); }
inline int i32(const char* n) { return (int)cs_sym(n, 32); }
struct quiet { quiet() { cs_quiet(1); } ~quiet() { cs_quiet(0); } };   // bookkeeping of the harness
inline bool flag(const char* n) { return cs_sym(n, 1) & 1; }
inline unsigned choice(const char* n, unsigned k) { return (unsigned)cs_choice(n, k); }
}
#define CHECK(c) cs_check((c), #c)
#define CHECKM(c, m) cs_check((c), m)
#define ENTRY(name) extern "C" __attribute__((used, noinline)) void name()
