// Replays of schedules: semaphores are handed to the replay runtime (rt.cpp), with the meaning the symbolic executor gives them.
#pragma once
#include <chrono>
#include <cstddef>
#include <semaphore>
extern "C" { void rt_sem_release(int*, long); bool rt_sem_try(int*); void rt_sem_acquire(int*); }
namespace std {
template<ptrdiff_t Max = 0x7fffffff> class cs_counting_semaphore { int n; public:
  explicit cs_counting_semaphore(ptrdiff_t d) : n(d) {} cs_counting_semaphore(const cs_counting_semaphore&) = delete; static constexpr ptrdiff_t max() { return Max; }
  void release(ptrdiff_t k = 1) { rt_sem_release(&n, k); } void acquire() { rt_sem_acquire(&n); } bool try_acquire() { return rt_sem_try(&n); }
  template<class D> bool try_acquire_for(const D&) { return rt_sem_try(&n); } template<class D> bool try_acquire_until(const D&) { return rt_sem_try(&n); } };
using cs_binary_semaphore = cs_counting_semaphore<1>;
}
#define counting_semaphore cs_counting_semaphore
#define binary_semaphore cs_binary_semaphore
