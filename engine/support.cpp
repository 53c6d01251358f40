// Pieces of libstdc++ and libc that live in their shared objects, written out so that code using them can be executed (and its schedules
// explored). Linked into a harness only where it calls them; nothing of this takes part in native replays that run without a script.
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <list>
#include <map>
#include <mutex>
#include <unordered_map>
#include <pthread.h>
extern "C" void cs_yield(); extern "C" unsigned long cs_choice(const char*, unsigned long);
namespace std {
// ---- ordered trees: every node is black but the header's end node, no rebalancing
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() { x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  if (h._M_left == z) h._M_left = z->_M_right ? _Rb_tree_node_base::_S_minimum(z->_M_right) : z->_M_parent; if (h._M_right == z) h._M_right = z->_M_left ? _Rb_tree_node_base::_S_maximum(z->_M_left) : z->_M_parent;
  if (!z->_M_left) replace(z, z->_M_right); else if (!z->_M_right) replace(z, z->_M_left); else { auto* y = _Rb_tree_node_base::_S_minimum(z->_M_right); if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; } return z; }
// ---- lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { bool a = x._M_next != &x, b = y._M_next != &y; auto own = [](_List_node_base& n, _List_node_base& o, bool some) { if (some) { n._M_next->_M_prev = n._M_prev->_M_next = &n; } else n._M_next = n._M_prev = &n; }; std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); own(x, y, b); own(y, x, a); }
// ---- hashed containers (load factor 1)
static bool prime(size_t n) { if (n < 4) return n > 1; if (!(n & 1)) return false; for (size_t d = 3; d * d <= n; d += 2) if (n % d == 0) return false; return true; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { if (n < 2) n = 2; while (!prime(n)) n++; _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > _M_next_resize) { size_t want = _M_next_resize ? elt + ins : (elt + ins > 11 ? elt + ins : 11); if (want >= bkt) return {true, _M_next_bkt(want + 1 > bkt * 2 ? want + 1 : bkt * 2)}; _M_next_resize = bkt; } return {false, 0}; }
}
// ---- condition variables: a wait gives way and may return without a cause
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() {} void condition_variable::notify_one() noexcept {} void condition_variable::notify_all() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { l.unlock(); cs_yield(); l.lock(); }
// ---- call_once
__thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy(void) { __once_call(); }
}
extern "C" {
static int timed(pthread_mutex_t* m) { pthread_mutex_unlock(m); cs_yield(); pthread_mutex_lock(m); return cs_choice("timed out", 2) ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const timespec*) noexcept(false) { return timed(m); } int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const timespec*) noexcept(false) { return timed(m); } int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) noexcept(false) { pthread_mutex_unlock(m); cs_yield(); pthread_mutex_lock(m); return 0; }
int pthread_cond_signal(pthread_cond_t*) noexcept { return 0; } int pthread_cond_broadcast(pthread_cond_t*) noexcept { return 0; } int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; } int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { auto* a = reinterpret_cast<std::atomic<int>*>(o); int e = 0; if (a->load() == 2) return 0; if (a->compare_exchange_strong(e, 1)) { f(); a->store(2); return 0; } while (a->load() != 2) cs_yield(); return 0; }
static std::atomic<int>& state(pthread_rwlock_t* l) { return *reinterpret_cast<std::atomic<int>*>(l); }   // -1 one writer, n readers
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { state(l).store(0); return 0; } int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { int e = 0; return state(l).compare_exchange_strong(e, -1) ? 0 : EBUSY; } int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { int e = state(l).load(); return e >= 0 && state(l).compare_exchange_strong(e, e + 1) ? 0 : EBUSY; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { while (pthread_rwlock_trywrlock(l)) cs_yield(); return 0; } int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { while (pthread_rwlock_tryrdlock(l)) cs_yield(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { if (state(l).load() < 0) state(l).store(0); else state(l).fetch_sub(1); return 0; }
}
