// Contracts of the bounded producer/consumer buffer (GBoundedBufferT), as a monitor: lock discipline, capacity
// invariant, FIFO order, exact results of the non-blocking and timed operations, and notification of waiters.
// vs: bound buffer instantiated with capacities 0 (unbounded), 1, 2; queue content up to 3 items before the operation
#include "common/GBoundedBufferT.hpp"
#include "vs.hpp"
#include "monitor.hpp"
using namespace Gem::Common;
template <std::size_t C> struct Buf : GBoundedBufferT<int, C> {
  using B = GBoundedBufferT<int, C>;
  using B::m_container;
  void track() { vs_mon.mutex = this->m_mutex.native_handle(); vs_mon.cv1 = &this->m_not_empty; vs_mon.cv2 = &this->m_not_full; }
};
static void *g_buf;                                             // the buffer, for the environment
static int g_env_n; static int g_env[3]; static bool g_has_env;
// rely: the other threads push to the front / pop from the back while respecting the capacity
template <std::size_t C> static VS_NOINLINE void env_step() {
  auto &b = *static_cast<Buf<C> *>(g_buf);
  std::size_t cap = C ? C : 2;
  std::size_t n = vs_choice("env_size", cap + 1);
  b.m_container.clear();
  g_env_n = int(n); g_has_env = true;
  for (std::size_t i = 0; i < n; ++i) { g_env[i] = vs_i32("env_item"); b.m_container.push_front(g_env[i]); }
}
// content oldest first
static int g_c[4]; static int g_n;
template <std::size_t C> static VS_NOINLINE void setup(Buf<C> &b) {
  vs_mon = VsMonitor();
  std::size_t n = vs_choice("n", (C ? C : 2) + 1);
  for (std::size_t i = 0; i < n; ++i) { g_c[i] = vs_i32("item"); b.push_and_block_copy(g_c[i]); }
  g_n = int(n); g_buf = &b; g_has_env = false;
  b.track(); vs_mon.env = &env_step<C>;
  vs_guard(&b.m_container, sizeof b.m_container, &vs_mon.held);
}
// drains the buffer and compares it with the expected content
template <std::size_t C> static VS_NOINLINE void expect(Buf<C> &b, const int *c, int n, const char *what) {
  vs_assert(b.size() == std::size_t(n), what);
  vs_assert(vs_mon.held == 0, "every operation releases the lock");
  for (int i = 0; i < n; ++i) { int x = 0; bool ok = b.try_pop_copy(x); vs_assert(ok && x == c[i], what); }
  vs_assert(b.empty() && !b.isNotEmpty() && b.size() == 0, "the drained buffer is empty");
  vs_guard(nullptr, 0, nullptr);
}
template <std::size_t C> static VS_NOINLINE void do_push() {
  Buf<C> b; setup(b);
  int x = vs_i32("x"); int arg = x; unsigned op = unsigned(vs_choice("op", 6));
  auto tmo = std::chrono::duration<double>(0.01);
  bool r = true;
  switch (op) {
    case 0: r = b.try_push_copy(x); break;
    case 1: r = b.try_push_move(std::move(arg)); break;
    case 2: b.push_and_block_copy(x); break;
    case 3: b.push_and_block_move(std::move(arg)); break;
    case 4: r = b.push_and_wait_copy(x, tmo); break;
    case 5: r = b.push_and_wait_move(std::move(arg), tmo); break;
  }
  const bool full0 = C && std::size_t(g_n) == C;
  const int *c = g_has_env ? g_env : g_c; int n = g_has_env ? g_env_n : g_n;     // state in which the operation took effect
  const bool full = C && std::size_t(n) == C;
  if (op < 2) vs_assert(!g_has_env && r == !full0, "a non-blocking push succeeds exactly if there is room");
  else { vs_assert(full0 || (!g_has_env && r), "a push waits only while the buffer is full"); vs_assert(r == !full, "a blocking push takes effect exactly when there is room"); }
  vs_assert(vs_mon.n1 == (r ? 1 : 0) || (r && vs_mon.n1 > 0), "a push that took effect wakes up a waiting consumer, a failed one nobody");
  int e[4]; for (int i = 0; i < n; ++i) e[i] = c[i];
  if (r) e[n++] = x;
  vs_assert(!C || n <= int(C), "the capacity is never exceeded");
  expect(b, e, n, "push appends the item after all present items");
}
template <std::size_t C> static VS_NOINLINE void do_pop() {
  Buf<C> b; setup(b);
  int x = vs_i32("x"); const int x0 = x; unsigned op = unsigned(vs_choice("op", 6));
  auto tmo = std::chrono::duration<double>(0.01);
  bool r = true;
  switch (op) {
    case 0: r = b.try_pop_copy(x); break;
    case 1: r = b.try_pop_move(x); break;
    case 2: b.pop_and_block_copy(x); break;
    case 3: b.pop_and_block_move(x); break;
    case 4: r = b.pop_and_wait_copy(x, tmo); break;
    case 5: r = b.pop_and_wait_move(x, tmo); break;
  }
  const int *c = g_has_env ? g_env : g_c; int n = g_has_env ? g_env_n : g_n;
  if (op < 2) vs_assert(!g_has_env && r == (g_n > 0), "a non-blocking pop succeeds exactly if there is an item");
  else { vs_assert(g_n == 0 || (!g_has_env && r), "a pop waits only while the buffer is empty"); vs_assert(r == (n > 0), "a blocking pop takes effect exactly when there is an item"); }
  if (r) vs_assert(x == c[0], "pop returns the oldest item"); else vs_assert(x == x0, "a failed pop leaves the argument alone");
  if (C && r) vs_assert(vs_mon.n2 > 0, "a pop from a bounded buffer wakes up a waiting producer");
  expect(b, c + (r ? 1 : 0), n - (r ? 1 : 0), "pop removes exactly the oldest item");
}
VS_ENTRY(push_unbounded) { do_push<0>(); }
VS_ENTRY(push_cap1) { do_push<1>(); }
VS_ENTRY(push_cap2) { do_push<2>(); }
VS_ENTRY(pop_unbounded) { do_pop<0>(); }
VS_ENTRY(pop_cap1) { do_pop<1>(); }
VS_ENTRY(pop_cap2) { do_pop<2>(); }
VS_ENTRY(queries) {
  Buf<2> b; setup(b); Buf<0> u;
  vs_assert(b.getCapacity() == 2 && b.isBounded() && u.getCapacity() == 0 && !u.isBounded(), "capacity queries");
  vs_assert(b.getRemainingSpace() == 2 - std::size_t(g_n), "remaining space = capacity - size");
  vs_assert(b.size() == std::size_t(g_n) && b.empty() == (g_n == 0) && b.isNotEmpty() == (g_n != 0), "size and emptiness agree with the content");
  vs_assert(vs_mon.held == 0 && !g_has_env, "queries do not wait and release the lock");
  vs_guard(nullptr, 0, nullptr);
}
