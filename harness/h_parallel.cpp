// C14 (and C13 through the pool): the parallel loop over ranges of every kind and length, on pools of any size.
#include "cs.hpp"
#include <algorithm>
#include <limits>
#include <ranges>
#include <co_ecs/thread_pool/parallel_for.hpp>
#include <deque>
#include <forward_list>
#include <ranges>
#include <vector>
using namespace co_ecs;
struct item { unsigned index = 0; unsigned calls = 0; bool busy = false; uint64_t value = 0, was = 0; };
static constexpr unsigned MAXLEN = 24;
static item items[MAXLEN]; static unsigned len, total; static bool open_, yields;
static void call(item& x) { CHECKM(open_, "the function is called outside of the loop"); CHECKM(&x >= items && &x < items + len, "the function is called for something that is not in the range"); CHECKM(!x.busy && !x.calls, "the function is called again for an element"); x.busy = true; if (yields) cs_yield(); x.busy = false; x.calls++; x.value = 3 * x.value + 1; }
static void before(unsigned n) { len = n; for (unsigned i = 0; i < MAXLEN; i++) items[i] = item{ i, 0, false }; for (unsigned i = 0; i < n; i++) items[i].value = items[i].was = cs::u64("value"); open_ = true; }
static void after() { open_ = false; for (unsigned i = 0; i < MAXLEN; i++) { CHECKM(!items[i].busy, "the loop returned while a call was running"); CHECKM(items[i].calls == (i < len), i < len ? "an element was left out" : "the function was called for an element outside of the range"); CHECKM(items[i].value == (i < len ? 3 * items[i].was + 1 : 0), "an element does not hold what the function made of it"); } }
enum { ARRAY, LIST, DEQUE, SUBRANGE, IOTA, POINTERS, RANGES };
static void loop(unsigned kind, unsigned n) { before(n);
  switch (kind) {
  case ARRAY: parallel_for(std::ranges::subrange(items, items + n), [](item& x) { call(x); }); break;
  case LIST: { std::forward_list<unsigned> l; for (unsigned i = n; i-- > 0;) l.push_front(i); parallel_for(l, [](unsigned& x) { CHECK(x < MAXLEN); call(items[x]); x = 99; }); for (unsigned& x : l) CHECKM(x == 99, "the function was called on copies of the elements"); break; }
  case DEQUE: { std::deque<unsigned> d; for (unsigned i = 0; i < n; i++) d.push_back(i); const auto& c = d; parallel_for(c, [](const unsigned& x) { CHECK(x < MAXLEN); call(items[x]); }); break; }
  case SUBRANGE: { std::vector<unsigned> v; for (unsigned i = 0; i < n + 2; i++) v.push_back(i ? i - 1 : 77); parallel_for(std::ranges::subrange(v.begin() + 1, v.begin() + 1 + n), [](unsigned x) { CHECKM(x < MAXLEN, "the function is called for something that is not in the range"); call(items[x]); }); break; }
  case IOTA: parallel_for(std::views::iota(0u, n), [](unsigned x) { CHECK(x < MAXLEN); call(items[x]); }); break;
  default: { std::vector<item*> v; for (unsigned i = 0; i < n; i++) v.push_back(&items[i]); struct fn { unsigned* sum; void operator()(item* x) const { call(*x); } } f{ &total }; parallel_for(std::move(v), f); } }
  after(); }
// how the range is split up, for every number of workers and every length; whatever the workers do not take, the caller does
ENTRY(c14_split) {
  unsigned workers = 1 + cs_concretize(cs::choice("workers", cs_param("workers", 5))), n = cs_concretize(cs::choice("length", cs_param("length", 12) + 1)), kind = cs_concretize(cs::choice("range", RANGES));
  thread_pool pool{ workers }; unsigned loops = cs_param("loops", 1); for (unsigned i = 0; i < loops; i++) loop(kind, n); cs_reach("end"); }
// ranges of arbitrary numbers: first and length are symbolic
ENTRY(c14_range) {
  unsigned workers = 1 + cs_concretize(cs::choice("workers", cs_param("workers", 3))); uint32_t first = cs::u32("first"), n = cs::u32("length"); cs_assume(n <= cs_param("length", 7)); cs_assume(first <= 0xffffffffu - n);
  thread_pool pool{ workers }; unsigned calls = 0, seen = 0; bool outside = false, twice = false;
  parallel_for(std::views::iota(first, first + n), [&](uint32_t x) { uint32_t d = x - first; outside |= d >= n; unsigned bit = 1u << (d & 31); twice |= (seen & bit) != 0; seen |= bit; calls++; });
  CHECKM(!outside, "the function is called for something that is not in the range"); CHECKM(!twice, "the function is called again for an element"); CHECKM(calls == n, "the number of calls differs from the length of the range"); cs_reach("end"); }
// without a pool of its own the loop uses the default one
ENTRY(c14_default) { unsigned n = cs_concretize(cs::choice("length", cs_param("length", 5) + 1)); loop(cs_concretize(cs::choice("range", RANGES)), n); loop(ARRAY, n); cs_reach("end"); }
// every schedule within the preemption bound
ENTRY(c14_threads) { yields = true; unsigned lo = cs_param("min", 2), n = lo + cs_concretize(cs::choice("length", cs_param("length", 3) - lo + 1)); { thread_pool pool{ cs_param("workers", 2) }; for (unsigned i = 0; i < cs_param("loops", 1); i++) loop(ARRAY, n); } cs_reach("end"); }
// a loop inside of a loop, and tasks submitted and waited for inside of a task
ENTRY(c14_nested) { yields = cs_param("yields", 1); unsigned n = cs_param("length", 2); before(n * n); { thread_pool pool{ cs_param("workers", 2) };
    parallel_for(std::ranges::subrange(items, items + n), [n](item& x) { unsigned row = x.index; parallel_for(std::ranges::subrange(items + row * n, items + row * n + n), [](item& y) { call(y); }); for (unsigned j = 0; j < n; j++) CHECKM(items[row * n + j].calls == 1 && !items[row * n + j].busy, "an inner loop returned before all its calls were done"); });
    after(); } cs_reach("end"); }
// a function that runs a parallel loop over itself: the children of element i < n are elements [n + n * i, n + n * i + n)
struct walk { unsigned n; void operator()(item& x) const { unsigned i = x.index; if (i < n) { parallel_for(std::ranges::subrange(items + n + n * i, items + n + n * i + n), *this); for (unsigned j = 0; j < n; j++) CHECKM(items[n + n * i + j].calls == 1 && !items[n + n * i + j].busy, "an inner loop returned before all its calls were done"); } call(x); } };
ENTRY(c14_recursive) { yields = cs_param("yields", 1); unsigned n = cs_param("length", 2); before(n + n * n); { thread_pool pool{ cs_param("workers", 2) }; const walk w{ n }; parallel_for(std::ranges::subrange(items, items + n), w); after(); } cs_reach("end"); }
// waiting for a task of the pool: it, and the children it was given before or while it ran, are done
static unsigned done_[8];
ENTRY(c13_pool) { unsigned kids = cs_param("kids", 1), late = cs_param("late", 1); { thread_pool pool{ cs_param("workers", 2) };
    task_t* group = pool.submit([] { cs_yield(); done_[0]++; });
    for (unsigned i = 1; i <= kids; i++) pool.submit([i, late, group] { if (i == 1 && late) { auto& w = thread_pool::worker::current(); task_t* t = w.submit([] { cs_yield(); done_[6]++; }, group); if (late > 1) { w.wait(t); CHECKM(done_[6] == 1, "a wait inside of a task returned before the task waited for was done"); } } cs_yield(); done_[i]++; }, group);
    pool.wait(group); for (unsigned i = 0; i <= kids; i++) CHECKM(done_[i] == 1, "a wait returned before the task and all of its children were done"); if (kids && late) CHECKM(done_[6] == 1, "a wait returned before a child added by another child was done"); CHECKM(group->is_completed(), "a wait returned although the task is not completed"); }
  for (unsigned i = 0; i <= kids; i++) CHECKM(done_[i] == 1, "a task ran more than once"); CHECKM(done_[6] == (kids && late), "a task ran more than once"); cs_reach("end"); }
// as many tasks of one thread at a time as it may have: each runs exactly once, as itself
static unsigned char ran_[4096];
ENTRY(c13_many) { unsigned n = cs_param("tasks", 4096); CHECK(n >= 2 && n <= 4096); unsigned rounds = cs_param("rounds", 1), flat = cs_concretize(cs::choice("all children of one", 2)); { thread_pool pool{ cs_param("workers", 1) };
    for (unsigned q = 0; q < rounds; q++) { task_t* t[2] = {}; for (unsigned i = 0; i < n; i++) { unsigned g = flat ? 0 : i & 1; uint64_t a = i, b = ~uint64_t(i), c = 3 * i; task_t* x = pool.submit([a, b, c] { CHECKM(a == ~b && a < 4096 && c == 3 * a, "a task does not run with what it was given"); ran_[a]++; }, t[g]); if (!t[g]) t[g] = x; else CHECKM(x != t[0] && x != t[1], "two tasks that are not done share their place"); }
      pool.wait(t[0]); if (t[1]) pool.wait(t[1]); for (unsigned i = 0; i < n; i++) CHECKM(ran_[i] == q + 1, ran_[i] > q + 1 ? "a task ran more than once" : "a wait returned before the task and all of its children were done"); } } cs_reach("end"); }
// one pool after another, of different sizes: the loop belongs to the pool that exists
ENTRY(c14_pools) { unsigned n = cs_concretize(cs::choice("length", cs_param("length", 5) + 1)), a = 1 + cs_concretize(cs::choice("workers", 3)), b = 1 + cs_concretize(cs::choice("workers after", 3)); { thread_pool pool{ a }; CHECKM(&thread_pool::get() == &pool && pool.num_workers() == a, "the pool in use is another one"); loop(ARRAY, n); bool threw = false; try { thread_pool other{ b }; } catch (const std::logic_error&) { threw = true; } CHECKM(threw, "a second pool is not refused"); loop(ARRAY, n); } { thread_pool pool{ b }; loop(ARRAY, n); } cs_reach("end"); }
