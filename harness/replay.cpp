// Native replay: runs one harness entry against the real library with the solver's assignment.
// usage: replay ENTRY VALUES-FILE   (one unsigned value per line; params as name=value lines)
#include "cs.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <vector>
#include <atomic>
#include <thread>
static std::vector<uint64_t> vals; static size_t pos; static std::map<std::string, uint64_t> params; static std::atomic<long> live{0};
static bool verbose = false;
static uint64_t next(const char* n) { uint64_t v = pos < vals.size() ? vals[pos] : 0; pos++; if (verbose) { fprintf(stderr, "  %s = %llu\n", n, (unsigned long long)v); } return v; }
extern "C" {
__attribute__((weak)) bool rt_new(void*, size_t); __attribute__((weak)) bool rt_delete(void*);   // rt.cpp
uint64_t cs_sym(const char* n, unsigned bits) { uint64_t v = next(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t cs_choice(const char* n, uint64_t k) { uint64_t v = next(n); if (k == 0 || v >= k) { fprintf(stderr, "REPLAY-DIVERGED\n"); _Exit(98); } return v; }
void cs_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); _Exit(98); } }
void cs_check(bool c, const char* m) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION check failed: %s\n", m); _Exit(97); } }
void cs_reach(const char*) {}
uint64_t cs_concretize(uint64_t v) { return v; }
void cs_access(const void* p, size_t n) { volatile char x = 0; for (size_t i = 0; i < n; i++) x += ((const volatile char*)p)[i]; }
uint64_t cs_heap_live() { return (uint64_t)live.load(); }
uint64_t cs_param(const char* n, uint64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
void cs_stop() { fprintf(stderr, "REPLAY-OK (stopped)\n"); _Exit(0); }
__attribute__((weak)) void cs_yield() { std::this_thread::yield(); }
__attribute__((weak)) void cs_go() {}
__attribute__((weak)) void cs_quiet(uint64_t) {}
void cs_debug(const char* n, uint64_t v) { fprintf(stderr, "[debug] %s = %llu\n", n, (unsigned long long)v); }
}
// live allocations; with CS_ALIGN=1 blocks get exactly the alignment they were promised
struct rec { void* raw; size_t n, al; };
template<class T> struct mal { using value_type = T; mal() = default; template<class U> mal(const mal<U>&) {} T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); } template<class U> bool operator==(const mal<U>&) const { return true; } };
using amap = std::map<uintptr_t, rec, std::less<uintptr_t>, mal<std::pair<const uintptr_t, rec>>>;
static amap& recs() { static amap* m = new (malloc(sizeof(amap))) amap; return *m; }
struct spin { void lock() { while (flag().test_and_set(std::memory_order_acquire)) {} } void unlock() { flag().clear(std::memory_order_release); } static std::atomic_flag& flag() { static std::atomic_flag f; return f; } };
static spin& rmx() { static spin m; return m; }
static bool adversarial() { static int v = -1; if (v < 0) { const char* e = getenv("CS_ALIGN"); v = e && *e == '1'; } return v; }
// with the parameter reuse: a block of this size and alignment is given out again, the last (1) or the first (2) released, as the executor does
extern "C" __attribute__((weak)) void __asan_poison_memory_region(const volatile void*, size_t); extern "C" __attribute__((weak)) void __asan_unpoison_memory_region(const volatile void*, size_t);
static unsigned reuse = 0; using fmap = std::map<std::pair<size_t, size_t>, std::vector<std::pair<void*, rec>, mal<std::pair<void*, rec>>>, std::less<>, mal<std::pair<const std::pair<size_t, size_t>, std::vector<std::pair<void*, rec>, mal<std::pair<void*, rec>>>>>>; static fmap& released() { static fmap* m = new (malloc(sizeof(fmap))) fmap; return *m; }
static void* take(size_t n, size_t al) { if (!n) n = 1; size_t want = al; char* p; void* raw;
  if (reuse) { std::lock_guard lk(rmx()); auto it = released().find({n, al}); if (it != released().end() && !it->second.empty()) { auto at = reuse == 2 ? it->second.begin() : it->second.end() - 1; auto [q, r] = *at; it->second.erase(at); recs()[(uintptr_t)q] = r; live++; if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(q, n); return q; } }
  if (adversarial() && al >= 16) { if (posix_memalign(&raw, 2 * al, n + al)) throw std::bad_alloc(); p = (char*)raw + al; } else if (al > 16) { if (posix_memalign(&raw, al, n)) throw std::bad_alloc(); p = (char*)raw; } else { raw = malloc(n); if (!raw) throw std::bad_alloc(); p = (char*)raw; }
  { std::lock_guard lk(rmx()); recs()[(uintptr_t)p] = rec{raw, n, want}; } live++; if (rt_new) rt_new(p, n); return p; }
static void give(void* p) { if (!p) return; void* raw = p; { std::lock_guard lk(rmx()); auto it = recs().find((uintptr_t)p); if (it != recs().end()) { raw = it->second.raw; if (reuse) { rec r = it->second; recs().erase(it); released()[{r.n, r.al}].push_back({p, r}); live--; if (__asan_poison_memory_region) __asan_poison_memory_region(p, r.n); return; } recs().erase(it); } } live--; if (rt_delete && rt_delete(p)) return; free(raw); }
static const rec* blk(const void* p, uintptr_t* base) { auto it = recs().upper_bound((uintptr_t)p); if (it == recs().begin()) return nullptr; --it; *base = it->first; return (uintptr_t)p <= it->first + it->second.n ? &it->second : nullptr; }
extern "C" {
uint64_t cs_block_base(const void* p) { uintptr_t b = 0; return blk(p, &b) ? b : 0; }
uint64_t cs_block_size(const void* p) { uintptr_t b = 0; auto r = blk(p, &b); return r ? r->n : 0; }
uint64_t cs_block_align(const void* p) { uintptr_t b = 0; auto r = blk(p, &b); return r ? r->al : 1; }
}
void* operator new(size_t n) { return take(n, 16); }
void* operator new[](size_t n) { return take(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a < 8 ? 8 : (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a < 8 ? 8 : (size_t)a); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
int main(int argc, char** argv) {
  std::ifstream f(argv[2]); std::string l; while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; auto e = l.find('='); if (e != std::string::npos && (e == 0 || !isdigit(l[0]))) params[l.substr(0, e)] = std::stoull(l.substr(e + 1)); else vals.push_back(std::stoull(l)); }
  reuse = params.count("reuse") ? params["reuse"] : 0; verbose = getenv("CS_VERBOSE") != nullptr;
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 99; }
  fn(); fprintf(stderr, "REPLAY-OK\n"); return 0; }
