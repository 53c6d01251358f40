// C09, C12, C13: small concurrent programs; from cs_go() on every interleaving and every outcome the C++ memory model allows is explored.
#include "cs.hpp"
#include <co_ecs/detail/handle.hpp>
#include <co_ecs/detail/work_stealing_queue.hpp>
#include <co_ecs/thread_pool/task.hpp>
#include <thread>
using namespace co_ecs;
// ---------------------------------------------------------------- C12
using wsq = detail::work_stealing_queue<uint64_t>;
// The owner pushes and pops in an arbitrary order while thieves steal; afterwards the owner drains the queue. Every pushed item is handed out exactly once.
ENTRY(c12_threads) {
  unsigned thieves = cs_param("thieves", 1), steals = cs_param("steals", 1), ops = cs_param("ops", 2), maxpre = cs_param("pre", 2), maxpast = cs_param("past", 0);
  unsigned past = cs::choice("past", maxpast + 1), pre = cs::choice("pre", maxpre + 1); bool push[8];
  for (unsigned i = 0; i < ops; i++) push[i] = cs_concretize(cs::choice("push", 2));
  wsq q{2}; uint64_t next = 1;
  for (unsigned i = 0; i < past; i++) { q.push(100 + i); auto x = q.steal(); CHECK(x && *x == 100 + i); }
  for (unsigned i = 0; i < pre; i++) q.push(next++);
  uint64_t got[3][3] = {}; uint64_t mine[16]; unsigned nmine = 0;
  auto thief = [&](unsigned t) { for (unsigned i = 0; i < steals; i++) { auto x = q.steal(); if (x) got[t][i] = *x; } };
  std::thread t1{[&] { thief(0); }}; std::thread t2; if (thieves > 1) t2 = std::thread{[&] { thief(1); }};
  cs_go();
  for (unsigned i = 0; i < ops; i++) { if (push[i]) q.push(next++); else if (auto x = q.pop()) mine[nmine++] = *x; }
  t1.join(); if (thieves > 1) t2.join();
  // every item counts once in a field of its own
  uint64_t sum = 0, all = 0; for (uint64_t i = 1; i < next; i++) all += 1ull << (6 * i); auto take = [&](uint64_t x) { CHECKM(x < next, "handed out something that was never pushed"); sum += 1ull << (6 * x); };
  for (unsigned t = 0; t < thieves; t++) for (unsigned i = 0; i < steals; i++) take(got[t][i]); for (unsigned i = 0; i < nmine; i++) take(mine[i]);
  while (auto x = q.pop()) take(*x);
  CHECKM((sum & ~63ull) == all, "an item was lost or handed out twice");
  cs_reach("end");
}
// What the owner wrote before it pushed an item is visible to whoever obtains the item.
struct cell { uint64_t v; };
ENTRY(c12_publish) {
  unsigned pushes = cs_param("pushes", 2), steals = cs_param("steals", 1), pops = cs_param("pops", 1), maxpre = cs_param("pre", 1), pre = cs::choice("pre", maxpre + 1); detail::work_stealing_queue<cell*> q{2}; cell* c = new cell[8]{}; unsigned n = 0;
  for (unsigned i = 0; i < pre; i++) { c[n].v = 40 + n; q.push(&c[n]); n++; }
  uint64_t* seen = new uint64_t[4]{};
  std::thread t{[&] { for (unsigned i = 0; i < steals; i++) { auto x = q.steal(); if (x) { seen[i] = (*x)->v; (*x)->v = 7; } } }};
  cs_go();
  for (unsigned i = 0; i < pushes; i++) { c[n].v = 40 + n; q.push(&c[n]); n++; }
  for (unsigned i = 0; i < pops; i++) if (auto x = q.pop()) { CHECKM((*x)->v == 40 + (uint64_t)(*x - c), "the owner finds an item changed that it obtained alone"); (*x)->v = 8; }
  t.join(); for (unsigned i = 0; i < steals; i++) CHECKM(!seen[i] || (seen[i] >= 40 && seen[i] < 40 + n), "a thief does not see what was written before the push");
  cs_reach("end");
}
// Without concurrency: the owner takes the newest item, a thief the oldest, and size() and empty() agree with what is inside.
ENTRY(c12_sequential) {
  unsigned ops = cs_param("ops", 6); wsq q{2}; uint64_t item[16]; unsigned lo = 0, hi = 0;
  for (unsigned i = 0; i < ops; i++) {
    switch (cs::choice("op", 3)) {
    case 0: item[hi] = cs::u64("item"); q.push(item[hi]); hi++; break;
    case 1: { auto x = q.pop(); CHECKM(x.has_value() == (lo < hi), "pop found an item in an empty queue, or none in a filled one"); if (x) CHECKM(*x == item[--hi], "pop did not take the newest item"); break; }
    default: { auto x = q.steal(); CHECKM(x.has_value() == (lo < hi), "steal found an item in an empty queue, or none in a filled one"); if (x) CHECKM(*x == item[lo++], "steal did not take the oldest item"); } }
    CHECKM(q.size() == hi - lo && q.empty() == (lo == hi), "size or empty differs from the number of items inside"); CHECKM(q.capacity() >= (int64_t)(hi - lo), "more items than the capacity"); }
  cs_reach("end");
}
// ---------------------------------------------------------------- C09
struct tag; using H = detail::handle<tag>; using pool_t = detail::handle_pool<H>;
// Threads reserve handles concurrently, after an arbitrary history of the pool.
ENTRY(c09_pool) {
  unsigned threads = cs_param("threads", 2), each = cs_param("each", 1), steps = cs_param("steps", 2), after = cs_param("after", 2); pool_t& p = *new pool_t; H live[12]; bool pending[12] = {}; unsigned n = 0, pre = cs_concretize(cs::choice("pre", cs_param("pre", 0) + 1)), freed = cs_concretize(cs::choice("freed", pre + 1));
  for (unsigned i = 0; i < pre; i++) live[n++] = p.create(); for (unsigned i = 0; i < freed; i++) p.recycle(live[--n]);
  for (unsigned i = 0; i < steps; i++) switch (cs_concretize(cs::choice("op", 4))) {
    case 0: live[n] = p.create(); for (unsigned k = 0; k < n; k++) pending[k] = false; pending[n] = false; n++; break;
    case 1: { if (!n) cs_stop(); unsigned k = cs_concretize(cs::choice("which", n)); if (pending[k]) cs_stop(); p.recycle(live[k]); for (unsigned j = 0; j < n; j++) pending[j] = false; live[k] = live[--n]; break; }
    case 2: live[n] = p.reserve(); pending[n] = true; n++; break;
    default: p.flush(); for (unsigned k = 0; k < n; k++) pending[k] = false; }
  struct slot { uint32_t id, gen; }; slot* got[3]; for (auto& g : got) g = new slot[3]{};
  auto body = [&](unsigned t) { for (unsigned i = 0; i < each; i++) { H h = p.reserve(); got[t][i] = slot{ h.id(), h.generation() }; } };
  std::thread t1{[&] { body(1); }}; std::thread t2; if (threads > 2) t2 = std::thread{[&] { body(2); }};
  cs_go();
  body(0); t1.join(); if (threads > 2) t2.join();
  H all[24]; unsigned m = 0; for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < each; i++) all[m++] = H{ got[t][i].id, got[t][i].gen }; unsigned fresh = m; for (unsigned i = 0; i < n; i++) all[m++] = live[i];
  bool same = false; for (unsigned i = 0; i < fresh; i++) for (unsigned j = i + 1; j < m; j++) same |= all[i].id() == all[j].id(); CHECKM(!same, "a handle reserved concurrently equals another one or a live entity");
  bool odd = false; for (unsigned i = 0; i < fresh; i++) odd |= all[i].id() == H::invalid_id; CHECKM(!odd, "an invalid handle was reserved");
  p.flush(); for (unsigned i = 0; i < m; i++) CHECKM(p.alive(all[i]), "a reserved handle is not alive after synchronisation");
  for (unsigned k = 0; k < after; k++) { H h = p.create(); CHECKM(p.alive(h), "a created handle is not alive"); bool dup = false; for (unsigned i = 0; i < m; i++) dup |= all[i].id() == h.id(); CHECKM(!dup, "an entity created later coincides with a reserved one"); all[m++] = h; }
  cs_reach("end");
}
// ---------------------------------------------------------------- C13
// A task with children (and a grandchild) executed by different threads, in any distribution, while another thread waits for it.
ENTRY(c13_threads) {
  unsigned kids = cs_param("kids", 2), deep = cs_param("deep", 0), workers = cs_param("workers", 2), who[5] = {};
  cell* data = new cell[6]{}; uint64_t* runs = new uint64_t[6]{}; task_t** t = new task_t*[6]{}; auto work = [data, runs](unsigned i) { return [data, runs, i] { data[i].v = 10 + i; runs[i]++; }; };
  task_t* outer = new task_t(work(5)); t[0] = new task_t(work(0), outer); for (unsigned i = 1; i <= kids; i++) t[i] = new task_t(work(i), t[0]); if (deep) t[4] = new task_t(work(4), t[1]);
  unsigned seen = 0; for (unsigned i = 0; i < 5; i++) if (t[i]) { unsigned k = seen + 1 < workers ? seen + 1 : workers; who[i] = cs_concretize(cs::choice("who", k)); if (who[i] == seen) seen++; }   // up to renaming of the threads
  // the outer task's own function has run already
  outer->execute();
  auto body = [&](unsigned w) { for (unsigned i = 0; i < 5; i++) if (t[i] && who[i] == w) t[i]->execute(); };
  std::thread a{[&] { body(0); }}, b; if (workers > 1) b = std::thread{[&] { body(1); }}; std::thread c; if (workers > 2) c = std::thread{[&] { body(2); }};
  bool wait = cs_concretize(cs::choice("wait", 2));
  cs_go();
  if (wait) { if (cs_param("outer", 0)) cs_assume(outer->is_completed()); else cs_assume(t[0]->is_completed()); }
  if (wait) for (unsigned i = 0; i < 5; i++) if (t[i]) { CHECKM(data[i].v == 10 + i, "what a finished task wrote is not visible to the waiter"); CHECKM(runs[i] == 1, "a wait returned before every child had run"); CHECKM(t[i]->is_completed(), "a child of a completed task is not completed"); }
  a.join(); if (workers > 1) b.join(); if (workers > 2) c.join();
  CHECKM(outer->is_completed(), "the outer task is not completed although everything finished"); for (unsigned i = 0; i < 5; i++) if (t[i]) CHECKM(t[i]->is_completed(), "a task is not completed although everything finished");
  cs_reach("end");
}
// A task that creates its children while it runs and hands them to another thread, which may finish them before the creator is done.
ENTRY(c13_spawn) {
  unsigned kids = cs_param("kids", 1), own = cs_param("own", 1); bool wait = cs_concretize(cs::choice("wait", 2)); cell* data = new cell[6]{}; auto* slot = new std::atomic<task_t*>[3]{}; bool* ran = new bool[4]{}; task_t* root = nullptr; 
  root = new task_t([&] { data[0].v = 10; for (unsigned i = 1; i <= kids; i++) slot[i - 1].store(new task_t([data, i] { data[i].v = 10 + i; }, root), std::memory_order::release); task_t* mine = own ? new task_t([data] { data[5].v = 15; }, root) : nullptr; data[4].v = 14; if (mine) mine->execute(); });
  std::thread a{[&] { root->execute(); }}, b{[&] { for (unsigned i = 0; i < kids; i++) if (task_t* t = slot[i].load(std::memory_order::acquire)) { t->execute(); ran[i] = true; } }};
  cs_go();
  if (wait) { cs_assume(root->is_completed());
    for (unsigned i = 0; i <= kids; i++) CHECKM(data[i].v == 10 + i, "what a finished task wrote is not visible to the waiter"); CHECKM(data[4].v == 14 && (!own || data[5].v == 15), "what a finished task wrote is not visible to the waiter"); }
  a.join(); b.join(); for (unsigned i = 0; i < kids; i++) if (!ran[i]) { CHECKM(!root->is_completed(), "a task is completed before its child ran"); slot[i].load()->execute(); }
  CHECKM(root->is_completed(), "a task is not completed although everything finished");
  cs_reach("end");
}
