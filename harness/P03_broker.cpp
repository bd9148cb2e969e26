// Contracts of the broker: routing of work items between buffer ports and consumers, enrolment, local workers.
// vs: link src/common/GCommonHelperFunctions.cpp src/courtier/GCourtierEnums.cpp
// vs: nlink src/courtier/GCourtierHelperFunctions.cpp src/common/GExceptions.cpp src/common/GLogger.cpp src/common/GThreadGroup.cpp src/common/GThreadPool.cpp src/common/GExpectationChecksT.cpp src/common/GCommonEnums.cpp src/common/GParserBuilder.cpp src/common/GCommonMathHelperFunctions.cpp src/common/GPlotDesigner.cpp
// vs: bound up to 3 buffer ports, 3 consumers, 3 items per queue
#include "courtier/GBrokerT.hpp"
#include "courtier/GWorkerT.hpp"
#include "vs.hpp"
#include <stdexcept>
using namespace Gem::Courtier;
static bool g_must_not_wait = false; static std::int64_t g_ns = 1000000000;
// the locks of the broker under contract: how often they are held, and what other threads do while this one waits
struct Lock { const void *m = nullptr; int held = 0; }; static Lock g_lock[2]; static void (*g_env)() = nullptr;
extern "C" void vs_guard(const void *p, std::size_t n, const int *held);
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept { for (auto &l : g_lock) if (l.m && m == l.m) { vs_assert(l.held == 0, "no lock of the broker is taken twice"); ++l.held; } return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return pthread_mutex_lock(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { for (auto &l : g_lock) if (l.m && m == l.m) { vs_assert(l.held == 1, "only locks that are held are released"); --l.held; } return 0; }
static VS_NOINLINE bool others() { vs_assert((g_lock[0].held == 0) & (g_lock[1].held == 0), "nobody waits for items while holding a lock of the broker"); if (!g_env) return false; auto e = g_env; g_env = nullptr; e(); return true; }
void std::condition_variable::wait(std::unique_lock<std::mutex> &) { vs_assert(!g_must_not_wait, "nothing is waited for when something is there"); if (!others()) vs_block(); }
static std::int64_t tick() { return g_ns += 1000000; }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(tick())); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(tick())); }
extern "C" int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *t) { others(); std::int64_t x = std::int64_t(t->tv_sec) * 1000000000 + t->tv_nsec; if (x > g_ns) g_ns = x; return 110; }
enum { OK, THROW_STD, FLAG_ERROR, N_OUT };
struct W : GProcessingContainerT<W, double> {
  using B = GProcessingContainerT<W, double>;
  int outcome = OK, calls = 0;
  W() : B(1) {}
  W(const W &) = default;
  void process_() override { ++calls; registerResult(0, 7.); if (outcome == THROW_STD) throw std::runtime_error("x"); if (outcome == FLAG_ERROR) force_set_error("flagged"); }
};
using P = std::shared_ptr<W>; using Port = GBufferPortT<W>; using PortP = std::shared_ptr<Port>; using Broker = GBrokerT<W>;
static const auto T0 = std::chrono::duration<double>(0.01);
struct Cons : GBaseConsumerT<W> {
  std::string name; bool full; int started = 0, stopped_ = 0;
  Cons(const char *n, bool f) : name(n), full(f) {}
  void addCLOptions_(boost::program_options::options_description &, boost::program_options::options_description &) override {}
  void actOnCLOptions_(const boost::program_options::variables_map &) override {}
  std::string getConsumerName_() const override { return name; }
  std::string getMnemonic_() const override { return "t"; }
  void async_startProcessing_() override { ++started; }
  std::size_t getNProcessingUnitsEstimate_(bool &e) const override { e = true; return 1; }
  bool capableOfFullReturn_() const override { return full; }
  void shutdown_() override { ++stopped_; GBaseConsumerT<W>::shutdown_(); }
};
// a broker with n connected ports
static VS_NOINLINE std::size_t ports(Broker &b, PortP *p, std::size_t lo, std::size_t hi) {
  std::size_t n = lo + vs_choice("ports", hi - lo + 1);
  for (std::size_t i = 0; i < n; ++i) { p[i] = PortP(new Port()); b.enrol_buffer_port(p[i]); }
  return n;
}
VS_ENTRY(port_queues) {
  Port q; std::size_t n = vs_choice("n", 4); P x[3]; bool timed = vs_choice("timed", 2), retr = vs_choice("retrieved before", 2);
  if (retr) q.m_no_retrieval = false;
  for (std::size_t i = 0; i < n; ++i) { x[i] = std::make_shared<W>(); if (timed) vs_assert(q.push_raw(x[i], T0), "there is room for raw items"); else q.push_raw(x[i]); }
  if (timed) vs_assert(!q.push_raw(P(), T0) && !q.push_processed(P(), T0), "empty items are refused"); else { q.push_raw(P()); q.push_processed(P()); }
  g_must_not_wait = true;
  for (std::size_t i = 0; i < n; ++i) { P y; if (timed) vs_assert(q.pop_raw(y, T0), "raw items are available"); else q.pop_raw(y); vs_assert(y == x[i], "raw items are handed out first in, first out"); vs_assert(y->getRawSubmissionTime() < y->getRawRetrievalTime(), "submission and retrieval times are marked"); }
  vs_assert(q.m_no_retrieval == (!retr && n == 0), "the first retrieval is recorded"); if (n > 0 && !retr) vs_assert(q.getFirstRetrievalTime() >= x[0]->getRawRetrievalTime() && (n == 1 || q.getFirstRetrievalTime() < x[1]->getRawRetrievalTime()), "the first retrieval time is the time of the first retrieval");
  P e = std::make_shared<W>(), e0 = e; vs_assert(!q.pop_raw(e, T0), "nothing but the raw items is handed out"); vs_assert(!q.pop_processed(e, T0) && e == e0, "raw and processed items are kept apart");
  for (std::size_t i = 0; i < n; ++i) { if (timed) vs_assert(q.push_processed(x[i], T0), "there is always room for processed items"); else q.push_processed(x[i]); }
  vs_assert(!q.pop_raw(e, T0), "processed items are not handed out for processing");
  for (std::size_t i = 0; i < n; ++i) { P y; if (timed) vs_assert(q.pop_processed(y, T0), "processed items are available"); else q.pop_processed(y); vs_assert(y == x[i], "processed items are returned first in, first out"); vs_assert(y->getRawRetrievalTime() < y->getProcSubmissionTime() && y->getProcSubmissionTime() < y->getProcRetrievalTime(), "processing times are marked"); }
  g_must_not_wait = false;
}
VS_ENTRY(routing) {
  Broker b; PortP p[3]; std::size_t n = ports(b, p, 1, 3);
  for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < i; ++j) vs_assert(p[i]->getUniqueTag() != p[j]->getUniqueTag(), "ports have unique ids");
  std::uint32_t id = vs_u32("id"); if (!vs_is_symbolic()) id %= 4; P x = std::make_shared<W>(); x->setBufferId(id); bool timed = vs_choice("timed", 2); bool known = false, missing = false, other = false, r = true; std::size_t k = 0;
  for (std::size_t i = 0; i < n; ++i) if (p[i]->getUniqueTag() == id) { known = true; k = i; }
  try { if (timed) r = b.put(x, T0); else b.put(x); } catch (buffer_not_present &) { missing = true; } catch (...) { other = true; }
  vs_assert(missing == !known && !other && r, "an item is refused exactly if its origin is unknown");
  for (std::size_t i = 0; i < n; ++i) { P y; bool got = p[i]->pop_processed(y, T0); vs_assert(got == (known && i == k) && (!got || y == x), "an item returns to the port it came from, and to no other one"); P z; vs_assert(!p[i]->pop_raw(z, T0), "returned items are not handed out again"); }
}
VS_ENTRY(fair_retrieval) {
  Broker b; PortP p[3]; std::size_t n = ports(b, p, 0, 3); bool timed = vs_choice("timed", 2); P x[3];
  for (std::size_t i = 0, k = vs_choice("advance", 4); i < k && n > 0; ++i) b.getNextRawBufferPort();
  for (std::size_t i = 0; i < n; ++i) { x[i] = std::make_shared<W>(); p[i]->push_raw(x[i]); }
  bool seen[3] = {false, false, false}; P y = std::make_shared<W>();
  if (n == 0) { if (timed) vs_assert(!b.get(y, T0) && !y, "nothing is handed out without ports"); else { b.get(y); vs_assert(!y, "nothing is handed out without ports"); } return; }
  g_must_not_wait = true;
  for (std::size_t i = 0; i < n; ++i) {
    if (timed) vs_assert(b.get(y, T0), "the next port is asked for items"); else b.get(y);
    bool found = false; for (std::size_t j = 0; j < n; ++j) if (y == x[j]) { vs_assert(!seen[j], "items are handed out once"); seen[j] = found = true; } vs_assert(found, "submitted items are handed out");
  }
  g_must_not_wait = false;
  for (std::size_t j = 0; j < n; ++j) vs_assert(seen[j], "all ports are served in turn");
  vs_assert(!b.get(y, T0) && !y, "nothing else is handed out");
}
VS_ENTRY(port_enrolment) {
  Broker b; PortP p[3], q(new Port()); bool off[3]; std::uint32_t start = vs_u32("next id"), lo = 0;
  // ports enrolled under arbitrary ids
  std::size_t n = vs_choice("ports", 3); std::uint32_t id[3];
  for (std::size_t i = 0; i < n; ++i) {
    p[i] = PortP(new Port()); id[i] = vs_u32("port id"); if (!vs_is_symbolic()) id[i] = start + id[i] % 3; vs_assume(id[i] != 0xffffffffu); for (std::size_t j = 0; j < i; ++j) vs_assume(id[i] > id[j]);
    p[i]->set_port_tag(id[i]); b.m_RawBuffers[id[i]] = p[i]; b.m_ProcessedBuffers[id[i]] = p[i]; off[i] = vs_choice("disconnected", 2); if (off[i]) p[i]->producer_disconnect();
  }
  (void)lo; b.m_n_registered_buffer_ports = std::uint32_t(n); b.m_currentGetPosition = b.m_RawBuffers.begin(); vs_assume(start != 0xffffffffu); b.m_current_bufferport_id = start; b.m_capable_of_full_return = vs_choice("full", 2);
  bool full = b.enrol_buffer_port(q); vs_assert(full == b.m_capable_of_full_return, "enrolment tells whether a full return may be expected");
  std::size_t kept = 0; std::uint32_t tag = q->getUniqueTag();
  for (std::size_t i = 0; i < n; ++i) { P w = std::make_shared<W>(); w->setBufferId(id[i]); bool present = b.m_RawBuffers.find(id[i]) != b.m_RawBuffers.end() && b.m_RawBuffers[id[i]] == p[i] && b.m_ProcessedBuffers.find(id[i]) != b.m_ProcessedBuffers.end() && b.m_ProcessedBuffers[id[i]] == p[i];
    if (!off[i]) { ++kept; vs_assert(present && tag != id[i] && p[i]->getUniqueTag() == id[i], "connected ports keep their id and place"); } else vs_assert(!present, "disconnected ports are removed"); }
  vs_assert(b.m_RawBuffers.size() == kept + 1 && b.m_ProcessedBuffers.size() == kept + 1 && b.m_n_registered_buffer_ports == kept + 1, "the number of ports is exact");
  vs_assert(b.m_RawBuffers[tag] == q && b.m_ProcessedBuffers[tag] == q, "the new port is enrolled under its id");
  P x = std::make_shared<W>(), y; q->push_raw(x); g_must_not_wait = true; bool got = false; for (std::size_t i = 0; i <= kept; ++i) { b.get(y, T0); got = got | (y == x); } g_must_not_wait = false; vs_assert(got, "the new port is served");
}
VS_ENTRY(consumers) {
  Broker b; auto c1 = std::make_shared<Cons>("a", vs_choice("full1", 2)), c2 = std::make_shared<Cons>(vs_choice("same name", 2) ? "a" : "b", vs_choice("full2", 2)), c3 = std::make_shared<Cons>("c", true);
  vs_assert(!b.hasConsumers(), "no consumers at the beginning");
  bool vec = vs_choice("vector", 2); bool dup = c1->name == c2->name;
  if (vec) { std::vector<std::shared_ptr<GBaseConsumerT<W>>> v{c1, c2}; b.enrol_consumer_vec(v); }
  else b.enrol_consumer(c1);
  bool two = vec && !dup;
  vs_assert(b.hasConsumers() && c1->started == 1 && c2->started == int(two), "enrolled consumers are started once; others are not");
  g_must_not_wait = true; vs_assert(b.capableOfFullReturn() == (c1->full && (!two || c2->full)), "a full return can be expected when all consumers are capable of it"); g_must_not_wait = false;
  if (vs_choice("later", 2)) b.enrol_consumer(c3); else { std::vector<std::shared_ptr<GBaseConsumerT<W>>> v{c3}; b.enrol_consumer_vec(v); }
  vs_assert(c3->started == 0, "later enrolments are ignored");
  PortP p[2]; ports(b, p, 0, 1);
  b.finalize(); b.finalize();
  vs_assert(c1->stopped_ == 1 && c1->stopped() && c2->stopped_ == int(two) && c3->stopped_ == 0, "finalisation shuts every enrolled consumer down exactly once");
  P y; vs_assert(!b.get(y, T0), "nothing is handed out after finalisation");
}
// a local worker between the broker and the items: everything that was fetched is processed once and returned to its origin
VS_ENTRY(worker) {
  Broker b; PortP p[2]; std::size_t n = ports(b, p, 1, 2), m = vs_choice("items", 3); P x[2]; int out[2]; std::size_t o[2]; int gets = 0, puts = 0;
  for (std::size_t i = 0; i < m; ++i) { x[i] = std::make_shared<W>(); x[i]->mark_as_due_for_processing(); x[i]->outcome = out[i] = int(vs_choice("outcome", N_OUT)); o[i] = vs_choice("origin", n); x[i]->setBufferId(p[o[i]]->getUniqueTag()); p[o[i]]->push_raw(x[i]); }
  GLocalConsumerWorkerT<W> w; vs_assert(vs_throws([&] { w.run(); }), "a worker without id does not run"); vs_assert(vs_throws([&] { w.registerBrokerFerry(nullptr); }), "an empty ferry is refused");
  w.registerBrokerFerry(std::make_shared<GBrokerFerryT<W>>(std::size_t(3), [&](const std::chrono::milliseconds &t) { P y; b.get(y, t); if (y) ++gets; return y; }, [&](P y, const std::chrono::milliseconds &t) { ++puts; b.put(y, t); }, [&]() { return puts == int(m); }));
  vs_assert(w.getWorkerId() == 3, "the worker has the id of its ferry");
  g_must_not_wait = true; bool t = vs_throws([&] { w.run(); }); g_must_not_wait = false;
  vs_assert(!t, "processing errors do not stop the worker");
  vs_assert(gets == int(m) && puts == int(m), "everything that was fetched is returned");
  for (std::size_t i = 0; i < m; ++i) vs_assert(x[i]->calls == 1 && x[i]->getProcessingStatus() == (out[i] == OK ? processingStatus::PROCESSED : out[i] == FLAG_ERROR ? processingStatus::ERROR_FLAGGED : processingStatus::EXCEPTION_CAUGHT), "every item is processed exactly once, and its status tells the outcome");
  for (std::size_t k = 0; k < n; ++k) { for (std::size_t i = 0; i < m; ++i) if (o[i] == k) { P y; vs_assert(p[k]->pop_processed(y, T0) && y == x[i], "items return to their origin, in order"); } P y; vs_assert(!p[k]->pop_processed(y, T0), "nothing else is returned"); }
}
static Broker *g_b = nullptr; static PortP *g_p = nullptr; static int *g_off = nullptr;
// another thread: a producer leaves (dropping its port) and a new one enrols
static void other_threads() { for (int i = 0; i < 2; ++i) if (g_p[i] && g_off[i]) { g_p[i]->producer_disconnect(); g_p[i].reset(); } g_b->enrol_buffer_port(PortP(new Port())); }
VS_ENTRY(locks) {
  Broker b; PortP p[3]; std::size_t n = ports(b, p, 1, 2); int off[2]; for (auto &o : off) o = vs_bool("leaves"); bool full = vs_bool("something queued"), env = vs_bool("others"); std::size_t op = vs_choice("operation", 6); P x = std::make_shared<W>(), y;
  for (std::size_t i = 0; i < n; ++i) { P w = std::make_shared<W>(); if (full) p[i]->push_raw(w); }
  std::uint32_t id = p[n - 1]->getUniqueTag(); if (vs_bool("unknown")) id = 77; x->setBufferId(id);
  g_lock[0] = Lock{b.m_switchGetPositionMutex.native_handle(), 0}; g_lock[1] = Lock{b.m_findProcesedBufferMutex.native_handle(), 0}; g_b = &b; g_p = p; g_off = off; g_env = env ? &other_threads : nullptr;
  vs_guard(&b.m_RawBuffers, sizeof b.m_RawBuffers, &g_lock[0].held); vs_guard(&b.m_currentGetPosition, sizeof b.m_currentGetPosition, &g_lock[0].held); vs_guard(&b.m_ProcessedBuffers, sizeof b.m_ProcessedBuffers, &g_lock[1].held);
  try { switch (op) { case 0: b.get(y); break; case 1: b.get(y, T0); break; case 2: b.put(x); break; case 3: b.put(x, T0); break; case 4: b.enrol_buffer_port(PortP(new Port())); break; case 5: b.finalize(); break; } } catch (buffer_not_present &) {}
  vs_guard(nullptr, 0, nullptr);
  vs_assert((g_lock[0].held == 0) & (g_lock[1].held == 0), "all locks of the broker are released");
  if (op < 2) vs_assert(!full | bool(y), "an item that is there is handed out");
  g_lock[0] = g_lock[1] = Lock(); g_env = nullptr;
}
