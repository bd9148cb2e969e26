// Contracts of the executors (GBaseExecutorT::workOn and everything below it, GSerialExecutorT, GBrokerExecutorT).
// vs: link src/common/GCommonHelperFunctions.cpp src/courtier/GCourtierEnums.cpp
// vs: nlink src/courtier/GCourtierHelperFunctions.cpp src/common/GExceptions.cpp src/common/GLogger.cpp src/common/GThreadGroup.cpp src/common/GThreadPool.cpp src/common/GExpectationChecksT.cpp src/common/GCommonEnums.cpp src/common/GParserBuilder.cpp src/common/GCommonMathHelperFunctions.cpp src/common/GPlotDesigner.cpp
// vs: opaque ^Gem::Common::(GPlotDesigner|GGraph2D|GBasePlotter):: => noop
// vs: bound up to 3 work items per submission; up to 3 old work items; up to 3 resubmission cycles
// vs: entry copies complete=1
#include "courtier/GExecutorT.hpp"
#include "vs.hpp"
#include <stdexcept>
using namespace Gem::Courtier;
// ---- environment: the clock is monotonic; a wait on an empty queue is an error where the contract says so
static bool g_must_not_wait = false; static int g_trylock = 0;
void std::condition_variable::wait(std::unique_lock<std::mutex> &) { vs_assert(!g_must_not_wait, "nothing is waited for unless something is missing"); vs_block(); }
extern "C" int pthread_mutex_trylock(pthread_mutex_t *) noexcept { return g_trylock; }
// the clock: every look at it takes a millisecond; waiting for a condition that does not come true takes until the timeout
static std::int64_t g_ns = 1000000000; 
static std::int64_t tick() { return g_ns += 1000000; }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(tick())); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(tick())); }
extern "C" int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *t) { std::int64_t x = std::int64_t(t->tv_sec) * 1000000000 + t->tv_nsec; if (x > g_ns) g_ns = x; return 110; }
enum { OK, THROW_STD, FLAG_ERROR, N_OUT };
struct W : GProcessingContainerT<W, double> {
  using B = GProcessingContainerT<W, double>;
  int outcome = OK, calls = 0, submitted = 0;
  W() : B(1) {}
  W(const W &) = default;
  W &operator=(const W &) = default;
  void process_() override {
    ++calls; registerResult(0, 7.);
    if (outcome == THROW_STD) throw std::runtime_error("x");
    if (outcome == FLAG_ERROR) force_set_error("flagged");
  }
};
using P = std::shared_ptr<W>; using V = std::vector<P>;
static const char *NAME[3] = {"item0", "item1", "item2"};
static VS_NOINLINE processingStatus status(std::uint64_t k) { switch (k) { case 0: return processingStatus::DO_IGNORE; case 1: return processingStatus::DO_PROCESS; case 2: return processingStatus::PROCESSED; case 3: return processingStatus::EXCEPTION_CAUGHT; default: return processingStatus::ERROR_FLAGGED; } }
struct Spec { std::size_t n = 0; processingStatus s0[3]; P p[3]; bool bad = false; std::size_t due = 0; };
static VS_NOINLINE void make(Spec &s, V &v, std::size_t maxn, bool outcomes, unsigned nstatus) {
  s.n = vs_choice("n", maxn + 1);
  for (std::size_t i = 0; i < s.n; ++i) {
    unsigned k = unsigned(vs_choice(NAME[i], outcomes ? nstatus + N_OUT - 1 : nstatus)); auto p = std::make_shared<W>();
    if (k >= nstatus) { p->outcome = int(k - nstatus) + 1; k = 1; }
    p->m_processing_status = s.s0[i] = status(k); s.p[i] = p; v.push_back(p);
    if (k >= 3) s.bad = true;
    if (k == 1) ++s.due;
  }
}
template <typename E> struct Ex : E { using E::E; void visualize_performance() override {} };
using Serial = Ex<GSerialExecutorT<W>>;
// ---- the serial executor
VS_ENTRY(serial_workon) {
  Serial e; e.init(); Spec s; V v; make(s, v, 2, true, 5);
  std::uint32_t it = vs_u32("iteration"); vs_assume(it < 1000000u); e.m_iteration_counter = it; bool resub = vs_choice("resubmit", 2); 
  executor_status_t st{false, false}; bool t = vs_throws([&] { st = e.workOn(v, resub); });
  vs_assert(v.size() == s.n, "the number of work items is unchanged");
  for (std::size_t i = 0; i < s.n; ++i) vs_assert(v[i] == s.p[i], "work items stay in their position");
  if (s.bad) { vs_assert(t, "items in an error state are refused"); }
  else {
    vs_assert(!t, "processing errors of work items do not leave workOn()");
    bool err = false; std::size_t nerr = 0;
    for (std::size_t i = 0; i < s.n; ++i) {
      W &w = *s.p[i]; bool due = s.s0[i] == processingStatus::DO_PROCESS;
      vs_assert(w.calls == int(due), "every item due for processing is processed exactly once, no other item is processed");
      if (!due) vs_assert(w.getProcessingStatus() == s.s0[i], "other items keep their status");
      else {
        vs_assert(w.getProcessingStatus() == (w.outcome == OK ? processingStatus::PROCESSED : w.outcome == FLAG_ERROR ? processingStatus::ERROR_FLAGGED : processingStatus::EXCEPTION_CAUGHT), "the status tells the outcome");
        vs_assert((w.getIterationCounter() == it) & (w.getCollectionPosition() == i) & (w.getResubmissionCounter() == 0), "items are tagged with iteration, position and resubmission");
        if (w.outcome != OK) { err = true; ++nerr; }
      }
    }
    vs_assert(st.is_complete, "serial submission is always complete");
    vs_assert(st.has_errors == err, "has_errors tells whether some item failed");
    vs_assert(e.getNReturnedLast() == s.due && e.getNNotReturnedLast() == 0 && e.getNErroneousWorkItems() == nerr && e.getNOldWorkItems() == 0, "the counters of the last iteration are exact");
    vs_assert(e.getOldWorkItems().empty(), "the serial executor has no old work items");
    vs_assert(e.get_iteration_counter() == it + 1, "each call is a new iteration");
    bool t2 = vs_throws([&] { st = e.workOn(v); }); vs_assert(t2 == err, "the executor can be used again, once errors have been dealt with");
    for (std::size_t i = 0; i < s.n; ++i) vs_assert(s.p[i]->calls == int(s.s0[i] == processingStatus::DO_PROCESS), "processed items are not processed again");
    if (!t2) vs_assert(st.is_complete && !st.has_errors && e.getNReturnedLast() == 0 && e.get_iteration_counter() == it + 2, "a second submission has nothing to do");
  }
}
VS_ENTRY(refusals) {
  Serial e; e.init(); V v{std::make_shared<W>(), std::make_shared<W>()}; v[0]->mark_as_due_for_processing(); v[1]->mark_as_due_for_processing();
  std::uint32_t it = vs_u32("iteration"), ext = vs_u32("external"); vs_assume((it < 1000000u) & (ext < 1000000u)); e.m_iteration_counter = it;
  switch (vs_choice("case", 4)) {
    case 0: { bool t = vs_throws([&] { e.workOn(v, false, std::make_tuple(ITERATION_COUNTER_TYPE(ext), true)); });
      vs_assert(t == (ext < it), "an external iteration counter may not go back");
      if (t) vs_assert(v[0]->calls == 0 && v[1]->calls == 0 && e.get_iteration_counter() == it, "a refused call does nothing");
      else vs_assert((v[0]->getIterationCounter() == ext) & (v[1]->getIterationCounter() == ext) & (e.get_iteration_counter() == ext + 1), "the external iteration counter is used"); break; }
    case 1: { bool t = vs_throws([&] { e.workOn(v, false, std::make_tuple(ITERATION_COUNTER_TYPE(ext), false)); });
      vs_assert(!t && (v[0]->getIterationCounter() == it), "the external iteration counter is ignored unless requested"); break; }
    case 2: { g_trylock = 16; bool t = vs_throws([&] { e.workOn(v); }); g_trylock = 0;
      vs_assert(t && v[0]->calls == 0 && v[1]->calls == 0 && e.get_iteration_counter() == it, "concurrent calls of workOn() are refused"); break; }
    case 3: { v[1].reset(); bool t = vs_throws([&] { e.workOn(v); }); vs_assert(t, "empty work items are refused"); break; }
  }
}
// ---- resubmission: an executor that returns an arbitrary subset of the submitted items in every cycle
struct Part : GBaseExecutorT<W> {
  V sub; int cycles = 0; std::size_t expected_in_cycle[5]; bool late = false, only_this_cycle = false; P old;
  void submit(P w) override { vs_assert(w->getResubmissionCounter() == std::size_t(cycles), "resubmitted items carry the number of the resubmission"); ++w->submitted; sub.push_back(w); }
  executor_status_t waitForReturn(V &items, V &o) override {
    if (cycles < 5) expected_in_cycle[cycles] = getExpectedNumber();
    vs_assert(getExpectedNumber() == sub.size(), "the executor knows how many items were submitted in this cycle");
    ++cycles;
    bool err = false; for (auto &w : sub) if (cycles > 3 || vs_choice("return", 2)) { try { w->process(); } catch (g_processing_exception &) { err = true; } }
    sub.clear(); if (late && cycles == 1) o.push_back(old);
    executor_status_t st = checkExecutionState(items); if (only_this_cycle) st.has_errors = err; return st;
  }
  std::chrono::high_resolution_clock::time_point determineInitialCycleStartTime() const override { return now(); }
  void visualize_performance() override {}
  GBaseExecutorT<W> *clone_() const override { return nullptr; }
};
VS_ENTRY(resubmission) {
  Part e; e.init(); Spec s; V v; make(s, v, 2, true, 3);
  std::size_t m = vs_choice("max", 4); e.setMaxResubmissions(m); bool resub = vs_choice("resubmit", 2);
  vs_assert(e.getMaxResubmissions() == m, "maxResubmissions is stored");
  e.late = vs_choice("late item", 2); e.old = std::make_shared<W>(); e.old->m_processing_status = processingStatus::PROCESSED; e.only_this_cycle = m == 2; /* only the errors of this cycle are reported */
  if (e.late) { e.m_in_first_iteration = false; auto x = std::make_shared<W>(); x->m_processing_status = processingStatus::PROCESSED; x->setCollectionPosition(7); e.m_old_work_items_cnt.push_back(x); }
  executor_status_t st = e.workOn(v, resub);
  bool err = false, complete = true; std::size_t missing = 0;
  for (std::size_t i = 0; i < s.n; ++i) {
    W &w = *s.p[i]; vs_assert(v[i] == s.p[i], "work items stay in their position");
    if (s.s0[i] != processingStatus::DO_PROCESS) vs_assert(w.submitted == 0 && w.calls == 0 && w.getProcessingStatus() == s.s0[i], "items that are not due are neither submitted nor changed");
    else {
      vs_assert(w.submitted >= 1 && w.calls <= 1, "items due for processing are submitted, and not again once they have returned");
      vs_assert(w.submitted <= e.cycles && (w.calls == 1 || w.submitted == e.cycles), "items that have not returned are submitted in every cycle");
      if (w.has_errors()) err = true;
      if (w.is_due_for_processing()) { complete = false; ++missing; }
    }
  }
  vs_assert(st.has_errors == err && st.is_complete == complete, "the returned status is exact");
  vs_assert(e.getNNotReturnedLast() == missing && e.getNReturnedLast() + missing == e.expected_in_cycle[e.cycles - 1], "the counters of returned and missing items are exact");
  vs_assert(e.cycles >= 1 && (std::size_t(e.cycles) <= 1 + m), "there are no more than the allowed resubmissions");
  if (!resub || m == 0) vs_assert(e.cycles == 1, "resubmission takes place only upon request");
  else if (missing > 0) vs_assert(std::size_t(e.cycles) >= m, "items that have not returned are resubmitted as often as allowed");
  auto o = e.getOldWorkItems(); vs_assert(e.getNOldWorkItems() == std::size_t(e.late) && o.size() == std::size_t(e.late) && (!e.late || o[0] == e.old), "the late items of this iteration are available as old work items, those of earlier ones are dropped");
}
// ---- old work items at the end of an iteration
VS_ENTRY(old_items) {
  Serial e; std::size_t n = vs_choice("n", 4); P p[3]; std::uint64_t pos[3]; bool done[3]; V items;
  for (std::size_t i = 0; i < n; ++i) {
    p[i] = std::make_shared<W>(); pos[i] = vs_u64(NAME[i]); if (!vs_is_symbolic()) pos[i] %= 3; vs_assume(pos[i] < 1000); p[i]->setCollectionPosition(pos[i]); unsigned k = unsigned(vs_choice("status", 2)); done[i] = k; p[i]->m_processing_status = k ? processingStatus::PROCESSED : processingStatus::EXCEPTION_CAUGHT;
    e.m_old_work_items_cnt.push_back(p[i]);
  }
  e.iterationFinalize(items); auto o = e.getOldWorkItems(); vs_assert(o.size() == e.getNOldWorkItems(), "the number of old work items is exact");
  for (std::size_t i = 0; i < o.size(); ++i) {
    vs_assert(o[i]->is_processed(), "only processed items are kept");
    if (i) vs_assert(o[i - 1]->getCollectionPosition() < o[i]->getCollectionPosition(), "old items are sorted by position, without duplicates");
    bool found = false; for (std::size_t j = 0; j < n; ++j) found = found | (o[i] == p[j]); vs_assert(found, "old items are among those that returned late");
  }
  for (std::size_t j = 0; j < n; ++j) { // no processed item is lost unless another one has the same position
    bool dup = false, kept = false; for (std::size_t k = 0; k < n; ++k) if (k != j) dup = dup | (pos[k] == pos[j]);
    for (auto &x : o) kept = kept | (x == p[j]);
    if (done[j]) vs_assert(kept | dup, "processed old items are not lost");
  }
}
// a large number of equal positions
VS_ENTRY(many_old_items) {
  Serial e; V items; std::size_t n = 20 + vs_choice("n", 30), m = 1 + vs_choice("m", 3); std::uint64_t last = 0; bool have[3] = {false, false, false};
  for (std::size_t i = 0; i < n; ++i) { auto p = std::make_shared<W>(); p->m_processing_status = processingStatus::PROCESSED; std::uint64_t k = vs_choice("pos", m); have[k] = true; p->setCollectionPosition(k); e.m_old_work_items_cnt.push_back(p); }
  (void)last; e.iterationFinalize(items); auto o = e.getOldWorkItems(); std::size_t c = 0; for (bool h : have) c += h;
  vs_assert(o.size() == c, "old items are unique"); for (std::size_t i = 1; i < o.size(); ++i) vs_assert(o[i - 1]->getCollectionPosition() < o[i]->getCollectionPosition(), "old items are sorted");
}
// vs: entry many_old_items sym=0
// ---- the broker executor
using Br = Ex<GBrokerExecutorT<W>>;
static VS_NOINLINE void port(Br &e) { e.m_current_buffer_port_ptr.reset(new GBufferPortT<W>()); }
VS_ENTRY(broker_add) {
  Br &e = *new Br; port(e); std::size_t n = 1 + vs_choice("n", 2); V v, old; P p[2]; processingStatus s0[2];
  std::uint32_t it = vs_u32("iteration"), wit = vs_u32("item iteration"); e.m_iteration_counter = it; e.m_expectedNumber = 1 + vs_choice("expected", 2); std::size_t r0 = vs_choice("returned", 2); e.m_nReturnedCurrent = r0;
  for (std::size_t i = 0; i < n; ++i) { p[i] = std::make_shared<W>(); s0[i] = status(vs_choice(NAME[i], 5)); p[i]->m_processing_status = s0[i]; v.push_back(p[i]); }
  bool empty = vs_choice("empty", 2), same = vs_choice("same object", 2); std::size_t pos = vs_choice("position", n); P w = empty ? P() : same ? p[pos] : std::make_shared<W>();
  if (w) { if (!same) w->m_processing_status = status(vs_choice("returned status", 5)); w->setIterationCounter(wit); w->setCollectionPosition(pos); }
  auto st = e.addWorkItemAndCheckCompleteness(w, v, old);
  if (!w) { vs_assert(!st.is_complete && !st.has_errors && e.m_nReturnedCurrent == r0 && old.empty() && v[pos] == p[pos], "no item, no change"); return; }
  bool current = wit == it, takes = same | (s0[pos] == processingStatus::DO_PROCESS);
  for (std::size_t i = 0; i < n; ++i) if (i != pos) vs_assert(v[i] == p[i], "no other position is touched");
  if (current) {
    vs_assert(v[pos] == (takes ? w : p[pos]), "a returned item takes its own position, unless another copy has been processed already");
    vs_assert(e.m_nReturnedCurrent == r0 + takes, "only items that were missing are counted");
    vs_assert(st.is_complete == (takes && r0 + 1 == e.m_expectedNumber), "the set is complete when the expected number has returned");
    vs_assert(st.has_errors == (takes && w->has_errors()), "errors are reported");
    vs_assert(old.empty(), "current items are not old");
  } else {
    vs_assert(v[pos] == p[pos] && e.m_nReturnedCurrent == r0 && !st.is_complete && !st.has_errors, "items of earlier iterations do not replace current ones");
    vs_assert(old.size() == std::size_t(w->is_processed()) && (old.empty() || old[0] == w), "processed items of earlier iterations become old work items");
  }
}
static VS_NOINLINE void answer(Br &e, P w, int outcome) { w->outcome = outcome; try { w->process(); } catch (g_processing_exception &) {} e.m_current_buffer_port_ptr->push_processed(w); }
// full return: items come back in any order, possibly as copies, mixed with late ones
VS_ENTRY(broker_full_return) {
  Br &e = *new Br; port(e); e.m_capable_of_full_return = vs_choice("capable", 2); if (!e.m_capable_of_full_return) e.setWaitFactor(0.);
  e.m_in_first_iteration = false; std::size_t n = vs_choice("n", 3); V v; P p[2];
  e.m_iteration_counter = 5; e.iterationInit(v); e.cycleInit(v);
  for (std::size_t i = 0; i < n; ++i) { p[i] = std::make_shared<W>(); p[i]->mark_as_due_for_processing(); v.push_back(p[i]); }
  g_must_not_wait = true;
  e.m_expectedNumber = e.submitAllWorkItems(v); vs_assert(e.m_expectedNumber == n, "all items are submitted");
  P raw[2]; for (std::size_t i = 0; i < n; ++i) { e.m_current_buffer_port_ptr->pop_raw(raw[i], std::chrono::duration<double>(0)); vs_assert(raw[i] == p[i], "items enter the raw queue in order"); }
  bool late = vs_choice("late", 2); if (late && n > 0) { auto l = std::make_shared<W>(); l->setIterationCounter(4); l->mark_as_due_for_processing(); answer(e, l, OK); }
  bool swap = vs_choice("swap", 2), copy = vs_choice("copy", 2); bool err = false; int out[2];
  for (std::size_t i = 0; i < n; ++i) { std::size_t k = swap ? n - 1 - i : i; out[k] = int(vs_choice("outcome", N_OUT)); err = err | (out[k] != OK); answer(e, copy ? std::make_shared<W>(*raw[k]) : raw[k], out[k]); }
  auto st = e.waitForReturn(v, e.m_old_work_items_cnt); e.cycleFinalize(v); e.iterationFinalize(v); g_must_not_wait = false;
  vs_assert(st.is_complete && st.has_errors == err, "the submission is complete when everything has returned");
  vs_assert(v.size() == n, "the number of items is unchanged");
  for (std::size_t i = 0; i < n; ++i) {
    vs_assert(v[i]->getCollectionPosition() == i && v[i]->calls == 1 && v[i]->outcome == out[i], "every position holds its own processed item");
    vs_assert(copy || v[i] == p[i], "returned items are the submitted ones");
  }
  vs_assert(e.getNReturnedLast() == n && e.getNNotReturnedLast() == 0 && e.getNOldWorkItems() == std::size_t(late && n > 0), "the counters are exact");
}
VS_ENTRY(partial_return_rate) {
  Br &e = *new Br; std::uint16_t pc = vs_u16("percentage"); bool t = vs_throws([&] { e.setMinPartialReturnPercentage(pc); });
  vs_assert(t == (pc > 100), "percentages beyond 100 are refused");
  if (t) { vs_assert(e.getMinPartialReturnPercentage() == 0, "a refused percentage is not stored"); return; }
  vs_assert(e.getMinPartialReturnPercentage() == pc, "the percentage is stored");
  std::uint64_t n = 1 + vs_choice("n", 10), r = vs_choice("r", n + 1); e.m_expectedNumber = n; e.m_nReturnedCurrent = r;
  bool reached = e.minPartialReturnRateReached();
  if (pc == 0) vs_assert(!reached, "percentage 0 disables partial returns");
  else vs_assert(reached == (r * 100 >= n * std::uint64_t(pc)), "execution continues early exactly when the percentage was reached");
}
// copies and loading
VS_ENTRY(copies) {
  Serial a, b; std::uint64_t m = vs_u64("max"); a.setMaxResubmissions(m); Serial c(a); b.load_(&a); vs_assert(c.getMaxResubmissions() == m && b.getMaxResubmissions() == m, "the number of resubmissions is copied");
  Br &x = *new Br; double f = vs_f64("wait factor"); vs_assume(f == f); x.setWaitFactor(f); x.m_minPartialReturnPercentage = vs_u16("pc"); x.setMaxResubmissions(m); x.m_capable_of_full_return = vs_bool("full"); x.m_waitFactorWarningEmitted = vs_bool("w");
  Br &y = *new Br(x), &z = *new Br; z.load_(&x);
  vs_assert((y.getWaitFactor() == f) & (z.getWaitFactor() == f) & (y.getMaxResubmissions() == m) & (z.getMaxResubmissions() == m), "wait factor and resubmissions are copied");
  vs_assert((y.m_minPartialReturnPercentage == x.m_minPartialReturnPercentage) & (z.m_minPartialReturnPercentage == x.m_minPartialReturnPercentage) & (y.m_capable_of_full_return == x.m_capable_of_full_return) & (z.m_capable_of_full_return == x.m_capable_of_full_return), "return settings are copied");
  vs_assert(vs_throws([&] { b.load_(&x); }), "executors of another type cannot be loaded");
}

// timeouts: only some of the items come back, possibly slowly, after late items of earlier iterations
VS_ENTRY(broker_timeout) {
  Br &e = *new Br; port(e); g_ns = 1000000000; bool first = vs_choice("first iteration", 2); std::size_t n = vs_choice("n", 3); V v; P p[2]; unsigned wf = unsigned(vs_choice("wait factor", 3)); if (wf) e.setWaitFactor(wf == 1 ? 0. : -2.); // no timeout
  if (!first) { e.m_in_first_iteration = false; e.m_first_retrieval = false; e.m_maxTimeout = std::chrono::duration<double>(10.); }
  e.m_iteration_counter = 4; if (vs_choice("an iteration without submissions", 2)) { V none; executor_status_t x{false, true}; bool t = vs_throws([&] { x = e.workOn(none); }); vs_assert(!t && x.is_complete && !x.has_errors, "an empty submission is complete at once"); }
  e.m_iteration_counter = 5; e.iterationInit(v); e.cycleInit(v);
  for (std::size_t i = 0; i < n; ++i) { p[i] = std::make_shared<W>(); p[i]->mark_as_due_for_processing(); v.push_back(p[i]); }
  e.m_current_buffer_port_ptr->m_no_retrieval = false; e.m_current_buffer_port_ptr->m_retrieval_start_time = std::chrono::system_clock::now();
  e.m_expectedNumber = e.submitAllWorkItems(v); vs_assert(e.m_expectedNumber == n, "all items are submitted");
  P raw[2]; for (std::size_t i = 0; i < n; ++i) e.m_current_buffer_port_ptr->pop_raw(raw[i]);
  bool late = !first && n > 0 && vs_choice("late", 2), slow = vs_choice("slow", 2);
  if (late) { auto l = std::make_shared<W>(), x = l; l->setIterationCounter(4); l->mark_as_due_for_processing(); e.m_current_buffer_port_ptr->push_raw(l); e.m_current_buffer_port_ptr->pop_raw(x); answer(e, x, OK); }
  bool back[2] = {false, false}, copy = vs_choice("copy", 2), all = true, any = false;
  for (std::size_t i = 0; i < n; ++i) { back[i] = vs_choice("answered", 2); if (!back[i]) all = false; else { any = true; if (slow) g_ns += 3000000000; answer(e, copy ? std::make_shared<W>(*raw[i]) : raw[i], OK); } }
  if (first && !any && n > 0) return;                      // the very first item is waited for without a timeout
  if (wf && !all) return;                                  // without a timeout everything is waited for
  g_must_not_wait = true; executor_status_t st{true, true}; bool t = vs_throws([&] { st = e.waitForReturn(v, e.m_old_work_items_cnt); }); g_must_not_wait = false;
  vs_assert(!t, "timeouts and late items are no errors"); e.cycleFinalize(v); e.iterationFinalize(v);
  bool complete = true; std::size_t got = 0;
  for (std::size_t i = 0; i < n; ++i) { bool r = v[i]->is_processed(); if (!r) { complete = false; vs_assert(v[i] == p[i] && v[i]->is_due_for_processing(), "items that have not returned in time remain in place"); } else ++got; vs_assert(!r || (back[i] && v[i]->calls == 1 && v[i]->getCollectionPosition() == i && (copy || v[i] == p[i])), "every position holds its own item"); if (back[i] && !slow && first) vs_assert(r, "items that returned in time are used"); }
  vs_assert(st.is_complete == complete && !st.has_errors, "the status is exact"); vs_assert(e.getNReturnedLast() == got && e.getNNotReturnedLast() == n - got, "the counters are exact");
  if (wf) vs_assert(complete, "without a timeout the executor waits until everything has returned");
  if (late && (!slow | (wf > 0))) vs_assert(e.getNOldWorkItems() == 1, "late items are kept as old work items");
}

// the rules for timeouts: average return time and longest processing time, measured from the start of the current cycle
VS_ENTRY(timeout_rules) {
  Br &e = *new Br; port(e); std::uint64_t n = 1 + vs_choice("n", 3), got = 1 + vs_choice("returned", n); unsigned k = unsigned(vs_choice("factor", 3)); double wf = k == 0 ? 1. : k == 1 ? 1.5 : 4.; e.setWaitFactor(wf);
  vs_assert(e.getWaitFactor() == wf, "the wait factor is stored"); e.m_expectedNumber = n; e.m_nReturnedCurrent = got; double proc = vs_choice("processing time", 2) ? 2. : 0.5; e.m_acc_max(proc); e.m_acc_max(0.25);
  g_ns = 100000000000; using tp = std::chrono::high_resolution_clock::time_point; e.m_iteration_first_submission_time = e.m_cycle_first_submission_time = e.m_object_first_submission_time = tp(std::chrono::nanoseconds(1000000000)); unsigned el = 1 + unsigned(vs_choice("elapsed", 3)); e.m_approx_cycle_start_time = tp(std::chrono::nanoseconds(g_ns - std::int64_t(el) * 1000000000));
  P w = std::make_shared<W>(); w->m_processing_status = processingStatus::PROCESSED; e.updateTimeout(w); double t = e.m_maxTimeout.count(), want = wf * (double(el) / double(got) * double(n) + proc);
  vs_assert(t >= want - 0.05 && t <= want + 0.05, "the timeout follows the average return time, the number of items expected and the longest processing time");
  g_ns = 100000000000 - std::int64_t(el) * 1000000000 + std::int64_t(t * 1e9) - 500000000; double rest = e.remainingTime().count(); vs_assert(rest > 0.4 && rest < 0.6, "the remaining time is measured from the start of the cycle"); vs_assert(!e.timeout(), "the timeout has not been reached");
  g_ns += 600000000; vs_assert(e.timeout() && e.remainingTime().count() == 0., "the timeout has been reached");
}
// several cycles: what did not return in the first cycle is submitted again; answers to the first submission may still come in
struct BrR : Br {
  P held[2]; bool dup = false, late_first = false; int nsub = 0; int out[2] = {OK, OK};
  void submit(P w) override {
    std::size_t i = w->getCollectionPosition(); ++nsub; Br::submit(w); P x; m_current_buffer_port_ptr->pop_raw(x); vs_assert(x == w, "items enter the raw queue");
    P c = std::make_shared<W>(*x);
    if (w->getResubmissionCounter() == 0) { if (vs_choice("answered at once", 2)) answer(*this, c, out[i]); else held[i] = c; return; }
    bool old = held[i] && vs_choice("first submission answered late", 2); if (old && late_first) { answer(*this, held[i], out[i]); dup = true; held[i].reset(); }
    if (vs_choice("second submission answered", 2)) answer(*this, c, out[i]);
    if (old && !late_first) { answer(*this, held[i], out[i]); dup = true; held[i].reset(); }
  }
};
VS_ENTRY(broker_resubmission) {
  BrR &e = *new BrR; port(e); g_ns = 1000000000; std::size_t n = 1 + vs_choice("n", 2); V v; P p[2]; e.m_in_first_iteration = false; e.m_first_retrieval = false; e.m_maxTimeout = std::chrono::duration<double>(10.); e.setMaxResubmissions(2); e.late_first = vs_choice("late answer first", 2);
  for (std::size_t i = 0; i < n; ++i) { p[i] = std::make_shared<W>(); p[i]->mark_as_due_for_processing(); v.push_back(p[i]); e.out[i] = vs_choice("fails", 2) ? THROW_STD : OK; }
  executor_status_t st{true, true}; g_must_not_wait = true; bool t = vs_throws([&] { st = e.workOn(v, true); }); g_must_not_wait = false; vs_assert(!t, "timeouts, late items and processing errors are no errors of the executor");
  bool complete = true, err = false; std::size_t missing = 0, nerr = 0; vs_assert(v.size() == n, "the number of items is unchanged");
  for (std::size_t i = 0; i < n; ++i) {
    bool back = !v[i]->is_due_for_processing(); if (!back) { complete = false; ++missing; vs_assert(v[i] == p[i], "items that have not returned remain in place"); continue; }
    vs_assert((v[i]->calls == 1) & (v[i]->getCollectionPosition() == i) & (v[i]->is_processed() == (e.out[i] == OK)), "every position holds its own processed item"); if (e.out[i] != OK) { err = true; ++nerr; }
  }
  vs_assert((st.is_complete == complete) & (st.has_errors == err), "the status is exact over all cycles"); vs_assert((e.getNNotReturnedLast() == missing) & (e.getNErroneousWorkItems() == nerr) & (e.getNReturnedLast() + missing == e.getExpectedNumber()), "the counters are exact");
  vs_assert(e.nsub <= int(3 * n), "items are submitted at most as often as allowed"); vs_assert(e.getNOldWorkItems() == 0, "further copies of items that have returned are no old work items");
}
