// Replay runtime for concurrent counterexamples. The library and the harness are compiled with the compiler's thread instrumentation and linked
// with this instead of a sanitizer runtime. One thread runs at a time.
//  schedule script: threads give way exactly where the counterexample says; a claimed data race is looked for with happens-before clocks.
//  weak script: the atomic operations of the counterexample happen in its order and return what it says they read; plain accesses are checked for
//  data races against the happens-before relation these outcomes imply, and for reads of memory without a value.
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fstream>
#include <map>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <thread>
#include <unordered_map>
#include <vector>
#include <unistd.h>
typedef unsigned __int128 u128;
static constexpr int MAXT = 16; using VC = std::vector<unsigned>;
enum { READY, JOIN, AT, EXHAUSTED, DONE, MUTEX, SEM };
struct Ev { int th; char type; unsigned long loc; int rf; unsigned long mo; unsigned local; bool atomic; bool done = false; u128 val = 0; VC rel; };
struct Thr { sem_t sem; int st = READY, target = -1, ev = -1; int ops = 0; int quiet = 0; std::vector<int> script; size_t next = 0; unsigned skip = 0; pthread_t h{}; VC vc = VC(MAXT), pend = VC(MAXT), relf = VC(MAXT); };
static Thr* T = new Thr[MAXT]; static int NT = 1, cur = 0; static bool weakMode, schedMode, gone, freeMode; static thread_local int me = 0; static std::string claim;
static std::vector<Ev> ev; static std::vector<int> order; static size_t cursor; static std::vector<int> sched; static size_t si; static bool trace;
static std::map<unsigned long, uintptr_t> toNative; static std::map<uintptr_t, unsigned long> toLoc; static std::map<uintptr_t, u128> init; static std::map<unsigned long, unsigned long> maxmo; static std::map<uintptr_t, VC> rcMem;
[[noreturn]] static void diverged(const char* why) { fprintf(stderr, "REPLAY-DIVERGED %s (thread %d)\n", why, me); _Exit(98); }
[[noreturn]] static void violation(const std::string& m) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m.c_str()); _Exit(97); }
static thread_local int inside = 0; struct In { In() { inside++; } ~In() { inside--; } };   // the runtime's own memory is not the program's
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (i < (int)b.size() && b[i] > a[i]) a[i] = b[i]; }
static void switchTo(int j) { if (trace) fprintf(stderr, "  [switch %d -> %d after %d]\n", me, j, T[me].ops); cur = j; int i = me; sem_post(&T[j].sem); sem_wait(&T[i].sem); }
static bool active() { return weakMode || schedMode; }
static int mutexOwner(void* m); static std::map<void*, int> owners; static std::map<int, void*> waitM; static std::map<int, int*> waitS;
static bool runnable(int i) { auto& t = T[i]; switch (t.st) { case READY: return true; case JOIN: return T[t.target].st == DONE; case AT: return cursor < order.size() && order[cursor] == t.ev; case EXHAUSTED: return freeMode; case MUTEX: { auto it = owners.find(waitM[i]); return it == owners.end() || it->second < 0; } case SEM: return *waitS[i] > 0; default: return false; } }
static void pass(bool preferOthers = false) { // called with my state set; returns when I may go on
  while (true) { if (!preferOthers && T[me].st != DONE && runnable(me)) { T[me].st = READY; return; } int j = -1; for (int k = 1; k <= NT; k++) { int c = (me + k) % NT; if (c != me && runnable(c)) { j = c; break; } }
    if (j < 0) { if (T[me].st != DONE && runnable(me)) { T[me].st = READY; return; } bool ex = false; for (int i = 0; i < NT; i++) ex |= T[i].st == EXHAUSTED; if (!ex || freeMode) diverged(freeMode ? "no thread can go on" : "the script cannot go on"); freeMode = true; continue; }
    if (T[me].st == DONE) { if (trace) fprintf(stderr, "  [end %d -> %d]\n", me, j); cur = j; sem_post(&T[j].sem); return; } preferOthers = false; switchTo(j); } }
// ---- schedule scripts
// right after an operation the thread to go on may not exist yet: the switch then belongs before the next operation
static void point(bool after = false) { if (!schedMode) return; while (si + 2 < sched.size() && sched[si] == me && sched[si + 1] == T[me].ops) { int j = sched[si + 2]; if (after && j != me && (j >= NT || !runnable(j))) return; si += 3; if (j != me) { if (j >= NT || !runnable(j)) diverged("the scheduled thread cannot run"); T[j].st = READY; switchTo(j); } } }
static void blocked() { while (!runnable(me)) { size_t b = si; point(); if (b == si) { if (trace) fprintf(stderr, "  [thread %d blocks after %d; next entry %d %d %d]\n", me, T[me].ops, si + 2 < sched.size() ? sched[si] : -1, si + 2 < sched.size() ? sched[si + 1] : -1, si + 2 < sched.size() ? sched[si + 2] : -1); pass(); } } T[me].st = READY; }
static void op() { T[me].ops++; point(true); }
// ---- plain accesses
struct Sh { int wt = -1; unsigned wc = 0; bool wa = false; unsigned rd[MAXT] = {}; bool ra[MAXT] = {}; }; static std::unordered_map<uintptr_t, Sh> shadow; struct Blk { size_t n; bool freed; std::vector<bool> set; }; static std::map<uintptr_t, Blk> blocks;
static int joins = 0; static bool allJoined() { return me == 0 && joins == NT - 1; }   // nothing is concurrent any more
static bool solo() { if (me != 0) return false; for (int i = 1; i < NT; i++) if (T[i].st != DONE) return false; return true; }
static bool watching() { return weakMode ? gone : schedMode && claim == "race" && NT > 1 && !T[me].quiet; }
static void access(uintptr_t a, size_t n, bool wr, bool atomic) { if (!watching()) return; In in;
  if (claim == "memory") { auto it = blocks.upper_bound(a); if (it != blocks.begin()) { --it; if (a < it->first + it->second.n) { auto& b = it->second; if (b.freed) violation("access to released memory"); for (size_t i = 0; i < n && a + i < it->first + b.n; i++) { if (wr) b.set[a - it->first + i] = true; else if (!b.set[a - it->first + i]) violation("read of memory without a value"); } } } }
  VC& v = T[me].vc; for (size_t i = 0; i < n && i < 256; i++) { Sh& s = shadow[a + i]; if (s.wt >= 0 && s.wt != me && s.wc > v[s.wt] && !(s.wa && atomic)) violation(std::string("data race: ") + (wr ? "write" : "read") + " unordered with another thread's write");
    if (wr) { for (int t = 0; t < NT; t++) if (t != me && s.rd[t] > v[t] && !(s.ra[t] && atomic)) violation("data race: write unordered with another thread's read"); s.wt = me; s.wc = v[me]; s.wa = atomic; } else { s.rd[me] = v[me]; s.ra[me] = atomic; } } }
extern "C" bool rt_new(void* p, size_t n) { if (!watching() || inside) return false; In in; for (size_t i = 0; i < n; i++) shadow.erase((uintptr_t)p + i); blocks[(uintptr_t)p] = Blk{n, false, std::vector<bool>(n)}; return true; }
extern "C" bool rt_delete(void* p) { if (!watching() || inside) return false; In in; auto it = blocks.find((uintptr_t)p); size_t n = it == blocks.end() ? 1 : it->second.n; access((uintptr_t)p, n, true, false); if (it != blocks.end()) it->second.freed = true; else blocks[(uintptr_t)p] = Blk{1, true, {true}}; return true; }   // kept from being used again
// ---- atomic operations
enum K { LD, ST, XC, AD, SB, AN, OR, XR, NA, CS }; static bool acq(int o) { return o == 1 || o == 2 || o >= 4; } static bool rel(int o) { return o >= 3; }
template<class V> static V apply(K k, V r, V x) { switch (k) { case ST: case XC: case CS: return x; case AD: return r + x; case SB: return r - x; case AN: return r & x; case OR: return r | x; case XR: return r ^ x; case NA: return ~(r & x); default: return r; } }
static void clocks(bool rd, bool wr, int o, const VC* from, VC& out) { Thr& t = T[me]; if (rd && from) { if (acq(o)) join(t.vc, *from); else join(t.pend, *from); } if (wr) { out = rel(o) ? t.vc : t.relf; out.resize(MAXT); if (rd && from) join(out, *from); } t.vc[me]++; }
static void bind(unsigned long loc, uintptr_t a) { auto i = toNative.find(loc); auto j = toLoc.find(a); if (i == toNative.end() && j == toLoc.end()) { toNative[loc] = a; toLoc[a] = loc; return; } if (i == toNative.end() || j == toLoc.end() || i->second != a) diverged("an atomic operation of another location"); }
static int scripted() { // the event the next atomic operation of this thread stands for; -1: none
  if (!weakMode || !gone || freeMode) return -1; Thr& t = T[me]; if (t.next >= t.script.size() && solo()) return -1; if (t.next >= t.script.size()) { t.st = EXHAUSTED; pass(); pass(true); return -1; } int e = t.script[t.next]; if (t.skip < ev[e].local) { t.skip++; return -1; } t.skip = 0; t.next++; t.st = AT; t.ev = e; pass(); cursor++; return e; }
template<class V> static V perform(volatile V* p, K k, int o, int o2, V x, V expected, bool* okOut) {
  In in; uintptr_t a = (uintptr_t)p; if (!active()) { V r = *p; bool ok = k != CS || r == expected; if (k != LD && ok) *p = apply(k, r, x); if (okOut) *okOut = ok; return r; }
  if (schedMode) { point(); V r = *p; bool ok = k != CS || r == expected, wr = k != LD && ok; if (watching()) { access(a, sizeof(V), k != LD && (k != CS || ok), true); VC out; auto it = rcMem.find(a); clocks(k != ST, wr, ok ? o : o2, it == rcMem.end() ? nullptr : &it->second, out); if (wr) rcMem[a] = out; } if (wr) *p = apply(k, r, x); if (okOut) *okOut = ok; op(); return r; }
  int e = scripted(); bool rd = k != ST; V r{}; VC out;
  if (e < 0) { if (freeMode && gone) pass(true); r = *p; bool ok = k != CS || r == expected, wr = k != LD && ok; if (okOut) *okOut = ok; if (gone) { access(a, sizeof(V), wr, true); auto it = rcMem.find(a); clocks(rd, wr, ok ? o : o2, it == rcMem.end() ? nullptr : &it->second, out); } if (wr) { *p = apply(k, r, x); if (gone) rcMem[a] = out; } return r; }
  Ev& E = ev[e]; bind(E.loc, a); char want = k == LD ? 'R' : k == ST ? 'W' : k == CS ? E.type : 'U'; bool after = allJoined() && k != LD && k != ST && E.type == 'R'; if (!after && E.type != want || (k == CS && E.type != 'R' && E.type != 'U')) diverged("another kind of atomic operation");
  const VC* from = nullptr; if (rd) { if (E.rf == -1) { auto it = init.find(a); r = it != init.end() ? (V)it->second : *p; } else if (E.rf < 0) diverged("no source"); else { Ev& w = ev[E.rf]; if (!w.atomic) r = *p; else { if (!w.done) diverged("read before its write"); r = (V)w.val; from = &w.rel; } } }
  bool ok = true; if (k == CS && after) { ok = r == expected; if (okOut) *okOut = ok; } else if (k == CS) { ok = E.type == 'U'; if (ok && r != expected) diverged("compare exchange succeeds with another value"); if (okOut) *okOut = ok; } bool wr = k != LD && ok; access(a, sizeof(V), wr, true); clocks(rd, wr, ok ? o : o2, from, out);
  if (wr) { init.emplace(a, (u128)*p); V nv = apply(k, r, x); E.val = nv; E.rel = out; if (after || E.mo >= maxmo[E.loc]) { if (!after) maxmo[E.loc] = E.mo; *p = nv; rcMem[a] = out; } } E.done = true; if (trace) fprintf(stderr, "  [event %d thread %d %c read %llx wrote %llx]\n", e, me, E.type, (unsigned long long)r, (unsigned long long)E.val); return r; }
template<class V> static int cas(volatile V* p, V* c, V v, int o, int o2) { bool ok; V r = perform<V>(p, CS, o, o2, v, *c, &ok); if (!ok) *c = r; return ok; }
static void syncAcq(void* p) { if (!schedMode || !watching()) return; auto it = rcMem.find((uintptr_t)p); if (it != rcMem.end()) join(T[me].vc, it->second); }
static void syncRel(void* p, bool acc) { if (!schedMode || !watching()) return; VC& m = rcMem[(uintptr_t)p]; m.resize(MAXT); if (acc) join(m, T[me].vc); else m = T[me].vc; T[me].vc[me]++; }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, false); } void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, false); } void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, false); } void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, false); } void __tsan_read_write##N(void* p) { access((uintptr_t)p, N, false, false); access((uintptr_t)p, N, true, false); } void __tsan_unaligned_read_write##N(void* p) { access((uintptr_t)p, N, false, false); access((uintptr_t)p, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access((uintptr_t)p, n, false, false); } void __tsan_write_range(void* p, unsigned long n) { access((uintptr_t)p, n, true, false); }
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, false); } void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); return memmove(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true, false); return memset(d, c, n); }
#define AT(B, V) V __tsan_atomic##B##_load(const volatile V* p, int o) { return perform<V>((volatile V*)p, LD, o, o, 0, 0, nullptr); } void __tsan_atomic##B##_store(volatile V* p, V v, int o) { perform<V>(p, ST, o, o, v, 0, nullptr); } V __tsan_atomic##B##_exchange(volatile V* p, V v, int o) { return perform<V>(p, XC, o, o, v, 0, nullptr); } \
  V __tsan_atomic##B##_fetch_add(volatile V* p, V v, int o) { return perform<V>(p, AD, o, o, v, 0, nullptr); } V __tsan_atomic##B##_fetch_sub(volatile V* p, V v, int o) { return perform<V>(p, SB, o, o, v, 0, nullptr); } V __tsan_atomic##B##_fetch_and(volatile V* p, V v, int o) { return perform<V>(p, AN, o, o, v, 0, nullptr); } V __tsan_atomic##B##_fetch_or(volatile V* p, V v, int o) { return perform<V>(p, OR, o, o, v, 0, nullptr); } V __tsan_atomic##B##_fetch_xor(volatile V* p, V v, int o) { return perform<V>(p, XR, o, o, v, 0, nullptr); } V __tsan_atomic##B##_fetch_nand(volatile V* p, V v, int o) { return perform<V>(p, NA, o, o, v, 0, nullptr); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile V* p, V* c, V v, int o, int f) { return cas<V>(p, c, v, o, f); } int __tsan_atomic##B##_compare_exchange_weak(volatile V* p, V* c, V v, int o, int f) { return cas<V>(p, c, v, o, f); } V __tsan_atomic##B##_compare_exchange_val(volatile V* p, V c, V v, int o, int f) { return perform<V>(p, CS, o, f, v, c, nullptr); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { if (!watching()) return; In in; int e = schedMode ? -1 : scripted(); if (e >= 0) { if (ev[e].type != 'F') diverged("a fence instead of another operation"); ev[e].done = true; } Thr& t = T[me]; if (acq(o)) join(t.vc, t.pend); if (rel(o)) t.relf = t.vc; t.vc[me]++; }
void __tsan_atomic_signal_fence(int) {}
void cs_go() { if (!weakMode) return; In in; gone = true; for (int i = 0; i < NT; i++) { T[i].vc = VC(MAXT); T[i].vc[i] = 1; } }
void cs_quiet(uint64_t on) { T[me].quiet += on & 1 ? 1 : -1; }
void cs_yield() { if (schedMode) op(); else if (active()) pass(true); else sched_yield(); }
int sched_yield() { if (schedMode) op(); else if (weakMode && freeMode) pass(true); else return (int)syscall(SYS_sched_yield); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (active()) return sched_yield(); return (int)::syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (active()) return sched_yield(); return (int)::syscall(SYS_clock_nanosleep, c, f, a, b); }
void rt_sem_release(int* n, long k) { In in; point(); *n += k; syncRel(n, true); op(); } bool rt_sem_try(int* n) { In in; point(); bool ok = *n > 0; if (ok) { --*n; syncAcq(n); } op(); return ok; } void rt_sem_acquire(int* n) { In in; point(); waitS[me] = n; T[me].st = SEM; blocked(); --*n; syncAcq(n); op(); }
struct Start { void* (*f)(void*); void* a; int id; };
static void* body(void* x) { Start s = *(Start*)x; me = s.id; sem_wait(&T[me].sem); { In in; delete (Start*)x; } T[me].st = READY; void* r = s.f(s.a); return r; }
static pthread_key_t endKey; static void threadEnd(void* v) { In in; long left = (long)v >> 8; int id = (long)v & 255; if (left > 1) { pthread_setspecific(endKey, (void*)(((left - 1) << 8) | id)); return; } me = id; T[me].st = DONE; if (schedMode) { if (si + 2 < sched.size() && sched[si] == me && sched[si + 1] == T[me].ops) { int j = sched[si + 2]; si += 3; if (!runnable(j)) diverged("the scheduled thread cannot run"); T[j].st = READY; cur = j; sem_post(&T[j].sem); return; } } pass(); }
static void* body2(void* x) { pthread_setspecific(endKey, (void*)(long)((3l << 8) | ((Start*)x)->id)); return body(x); }   // the thread ends for the others after its thread-local objects are gone
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*f)(void*), void* a) { static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create"); if (!active()) return real(h, at, f, a); In in; if (NT >= MAXT) diverged("too many threads"); int id = NT++; if (schedMode) { if (NT == 2) T[0].vc[0] = 1; T[id].vc = T[me].vc; T[id].vc[id] = 1; T[me].vc[me]++; } sem_init(&T[id].sem, 0, 0); auto* s = new Start{f, a, id}; int rc = real(h, at, body2, s); T[id].h = *h; return rc; }
int pthread_join(pthread_t h, void** r) { static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); if (!active()) return real(h, r); In in; int id = -1; for (int i = 1; i < NT; i++) if (T[i].h == h) id = i; if (id < 0) diverged("join of an unknown thread"); T[me].st = JOIN; T[me].target = id; if (schedMode) blocked(); else pass(); T[me].st = READY; join(T[me].vc, T[id].vc); joins++; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); if (!schedMode || inside) return real(m); In in; point(); auto it = owners.find(m); if (it != owners.end() && it->second == me) violation("a mutex is locked twice by one thread"); waitM[me] = m; T[me].st = MUTEX; blocked(); owners[m] = me; syncAcq(m); op(); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); if (!schedMode || inside) return real(m); In in; owners[m] = -1; syncRel(m, false); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); if (!schedMode || inside) return real(m); In in; auto it = owners.find(m); if (it != owners.end() && it->second >= 0) return EBUSY; owners[m] = me; syncAcq(m); return 0; }
// guards of local statics: byte 0 done, byte 1 under way
int __cxa_guard_acquire(uint64_t* g) { auto* b = (volatile unsigned char*)g; In in; if (b[0]) { syncAcq(g); return 0; } if (schedMode && NT > 1) { auto it = owners.find(g); if (it != owners.end() && it->second == me) violation("initialisation of a local static depends on itself"); waitM[me] = g; T[me].st = MUTEX; blocked(); if (b[0]) { syncAcq(g); return 0; } owners[g] = me; } b[1] = 1; return 1; }
void __cxa_guard_release(uint64_t* g) { auto* b = (volatile unsigned char*)g; In in; b[1] = 0; b[0] = 1; if (schedMode && NT > 1) owners[g] = -1; syncRel(g, false); } void __cxa_guard_abort(uint64_t* g) { auto* b = (volatile unsigned char*)g; In in; b[1] = 0; if (schedMode && NT > 1) owners[g] = -1; }
}
// what the executor assumes of the environment
unsigned int std::thread::hardware_concurrency() noexcept { return 2; }
unsigned int std::random_device::_M_getval() { return 1; }
static void crashed(int sig) { const char* m = sig == SIGSEGV ? "REPLAY-VIOLATION invalid memory access\n" : sig == SIGABRT ? "REPLAY-VIOLATION aborted\n" : "REPLAY-VIOLATION invalid operation\n"; (void)!write(2, m, strlen(m)); _exit(97); }
static void load() { for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, crashed); trace = getenv("CS_TRACE"); pthread_key_create(&endKey, threadEnd); sem_init(&T[0].sem, 0, 0); const char* f = getenv("CS_SCRIPT"); if (!f) return; std::ifstream in(f); std::string l; bool any = false;
  while (std::getline(in, l)) { std::istringstream s(l); std::string w; s >> w; if (w == "schedule") { any = true; int x; while (s >> x) sched.push_back(x); } else if (w == "claim") s >> claim; else if (w == "event") { Ev e; int at; s >> e.th >> e.type >> e.loc >> e.rf >> e.mo >> e.local >> at; e.atomic = at; ev.push_back(e); } }
  if (any) schedMode = true; else weakMode = true; if (weakMode) { std::map<int, unsigned> acc; for (size_t i = 0; i < ev.size(); i++) { auto& e = ev[i]; acc[e.th] += e.local; if (e.atomic) { e.local = acc[e.th]; acc[e.th] = 0; T[e.th].script.push_back(i); order.push_back(i); } } } }
static struct Load { Load() { load(); } } loader;
