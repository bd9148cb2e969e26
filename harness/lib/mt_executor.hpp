// Contracts of the multi-threaded executor, checked on the running code (bounded stand-in: threads and boost::asio are
// outside of the sequential proof).
#include "courtier/GExecutorT.hpp"
#include "vs.hpp"
#include <stdexcept>
#include <atomic>
using namespace Gem::Courtier;
enum { OK, THROW_STD, THROW_INT, FLAG_ERROR, N_OUT };
struct W : GProcessingContainerT<W, double> {
  using B = GProcessingContainerT<W, double>;
  int outcome = OK; double val = 0; std::atomic<int> calls{0};
  W() : B(1) {}
  W(const W &o) : B(o), outcome(o.outcome), val(o.val), calls(o.calls.load()) {}
  void process_() override {
    ++calls; registerResult(0, val);
    if (outcome == THROW_STD) throw std::runtime_error("x");
    if (outcome == THROW_INT) throw 1;
    if (outcome == FLAG_ERROR) force_set_error("flagged");
  }
};
using P = std::shared_ptr<W>; using V = std::vector<P>;
static void run_mt() {
  static GMTExecutorT<W> e(3); static bool init = false; if (!init) { e.init(); init = true; }
  std::size_t n = vs_choice("n", 12); V v, v0; std::vector<processingStatus> s0; bool err = false; std::size_t due = 0, nerr = 0;
  for (std::size_t i = 0; i < n; ++i) {
    auto p = std::make_shared<W>(); std::uint64_t k = vs_choice("status", 4); p->val = double(i) + 0.5;
    p->m_processing_status = k == 0 ? processingStatus::DO_IGNORE : k == 1 ? processingStatus::PROCESSED : processingStatus::DO_PROCESS;
    if (k >= 2) { ++due; p->outcome = int(vs_choice("outcome", 2 * N_OUT)); if (p->outcome >= N_OUT) p->outcome = OK; if (p->outcome != OK) { err = true; ++nerr; } }
    s0.push_back(p->getProcessingStatus()); v.push_back(p); v0.push_back(p);
  }
  auto it = e.get_iteration_counter(); executor_status_t st{false, false};
  bool t = vs_throws([&] { st = e.workOn(v); });
  vs_assert(!t, "processing errors of work items do not leave workOn()"); if (t) return;
  vs_assert(v == v0, "work items stay in their position");
  for (std::size_t i = 0; i < n; ++i) {
    W &w = *v[i]; bool d = s0[i] == processingStatus::DO_PROCESS;
    vs_assert(w.calls == int(d), "every item due for processing is processed exactly once, no other item is processed");
    if (!d) vs_assert(w.getProcessingStatus() == s0[i], "other items keep their status");
    else {
      vs_assert(w.getProcessingStatus() == (w.outcome == OK ? processingStatus::PROCESSED : w.outcome == FLAG_ERROR ? processingStatus::ERROR_FLAGGED : processingStatus::EXCEPTION_CAUGHT), "the status tells the outcome");
      if (w.outcome == OK) vs_assert(w.getStoredResult(0) == w.val, "results belong to their item");
      vs_assert(w.getIterationCounter() == it && w.getCollectionPosition() == i, "items are tagged with iteration and position");
    }
  }
  vs_assert(st.is_complete && st.has_errors == err, "the status is exact");
  vs_assert(e.getNReturnedLast() == due && e.getNNotReturnedLast() == 0 && e.getNErroneousWorkItems() == nerr, "the counters are exact");
  vs_assert(e.get_iteration_counter() == it + 1, "each call is a new iteration");
}
