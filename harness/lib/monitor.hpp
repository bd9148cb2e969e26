// Monitor contracts: mutexes and condition variables as ghost state.  The functions under contract run in one thread; the
// other threads are the environment: whenever the code waits on a condition variable the environment may change the
// guarded state in any way its own contracts allow (rely condition env_step), and the wait may return spuriously.
#pragma once
#include <condition_variable>
#include <pthread.h>
#include <cerrno>
#include <ctime>
struct VsMonitor {
  const void *mutex = nullptr; int held = 0; int acquired = 0; int waits = 0;
  const void *cv1 = nullptr, *cv2 = nullptr; int n1 = 0, n2 = 0; int n_unlocked_badly = 0;
  void (*env)() = nullptr; bool other_cv = false;
};
extern "C" VsMonitor vs_mon; VsMonitor vs_mon;
extern "C" {
void vs_guard(const void *p, std::size_t n, const int *held);
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (m == vs_mon.mutex) { vs_assert(vs_mon.held == 0, "no self-deadlock: the lock is not taken twice"); ++vs_mon.held; ++vs_mon.acquired; } return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (m == vs_mon.mutex) { vs_assert(vs_mon.held == 1, "only a held lock is released"); --vs_mon.held; } return 0; }
}
static VS_NOINLINE void vs_mon_wait() {
  vs_assert(vs_mon.held == 1, "waiting on the condition requires the lock");
  if (++vs_mon.waits > 1) vs_block();        // the state after any number of waits is one of those after the first one
  if (vs_mon.env) vs_mon.env();
}
void std::condition_variable::wait(std::unique_lock<std::mutex> &) { vs_mon_wait(); }
void std::condition_variable::notify_one() noexcept { if (this == vs_mon.cv1) ++vs_mon.n1; else if (this == vs_mon.cv2) ++vs_mon.n2; }
void std::condition_variable::notify_all() noexcept { notify_one(); }
extern "C" {
int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *) { vs_mon_wait(); return vs_bool("timeout") ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return pthread_cond_clockwait(c, m, 0, t); }
}
