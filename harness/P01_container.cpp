// Contracts of work items (GProcessingContainerT): status transitions, results, errors, copies.
// vs: link src/common/GCommonHelperFunctions.cpp src/courtier/GCourtierEnums.cpp
// vs: nlink src/courtier/GCourtierHelperFunctions.cpp src/common/GExceptions.cpp src/common/GLogger.cpp src/common/GThreadGroup.cpp src/common/GExpectationChecksT.cpp src/common/GCommonEnums.cpp src/common/GParserBuilder.cpp src/common/GCommonMathHelperFunctions.cpp
// vs: bound up to 3 stored results per item
#include "courtier/GProcessingContainerT.hpp"
#include "vs.hpp"
#include <stdexcept>
using namespace Gem::Courtier;
enum { OK, THROW_STD, THROW_INT, THROW_GEM, FLAG_ERROR, N_OUT };
static int g_calls = 0, g_pre = 0, g_post = 0;
struct W : GProcessingContainerT<W, double> {
  using B = GProcessingContainerT<W, double>;
  int outcome = OK; double result = 0; std::size_t n = 1;
  explicit W(std::size_t k) : B(k), n(k) {}
  W() = default;
  W(const W &) = default;
  W &operator=(const W &) = default;
  void process_() override {
    ++g_calls; vs_assert(is_due_for_processing(), "processing takes place in state DO_PROCESS");
    for (std::size_t i = 0; i < n; ++i) { vs_assert(modifyStoredResult(i) == 0., "processing starts from cleared results"); registerResult(i, result + double(i)); }
    switch (outcome) { case THROW_STD: throw std::runtime_error("x"); case THROW_INT: throw 1; case THROW_GEM: throw gemfony_exception("x"); case FLAG_ERROR: force_set_error("flagged"); }
  }
};
struct Proc : Gem::Common::GSerializableFunctionObjectT<W> {
  int out = OK; bool post; W *seen = nullptr; explicit Proc(bool p) : post(p) {}
  bool process_(W &w) override { ++(post ? g_post : g_pre); seen = &w; w.modifyStoredResult(0) += post ? 100. : 0.; if (out == THROW_STD) throw std::runtime_error("p"); return true; }
  Proc *clone_() const override { Proc *r = new Proc(post); r->out = out; return r; }
};
static VS_NOINLINE processingStatus status(std::uint64_t k) { switch (k) { case 0: return processingStatus::DO_IGNORE; case 1: return processingStatus::DO_PROCESS; case 2: return processingStatus::PROCESSED; case 3: return processingStatus::EXCEPTION_CAUGHT; default: return processingStatus::ERROR_FLAGGED; } }
static VS_NOINLINE void arbitrary(W &w, processingStatus s) {
  w.m_processing_status = s;
  for (std::size_t i = 0; i < w.n; ++i) w.m_stored_results_cnt[i] = vs_f64("old result");
  w.m_stored_error_descriptions = "old";
}
static bool flags_agree(const W &w, processingStatus s) {
  return (w.getProcessingStatus() == s) & (w.is_processed() == (s == processingStatus::PROCESSED)) & (w.is_ignored() == (s == processingStatus::DO_IGNORE)) & (w.is_due_for_processing() == (s == processingStatus::DO_PROCESS)) &
    (w.has_errors() == ((s == processingStatus::EXCEPTION_CAUGHT) | (s == processingStatus::ERROR_FLAGGED))) & (w.error_flagged_by_user() == (s == processingStatus::ERROR_FLAGGED));
}
VS_ENTRY(process_outcome) {
  std::size_t n = 1 + vs_choice("n", 3); W w(n); processingStatus s0 = status(vs_choice("status", 5)); arbitrary(w, s0);
  double r0 = w.m_stored_results_cnt[0]; w.m_pre_processing_time = w.m_processing_time = w.m_post_processing_time = 7;
  w.outcome = int(vs_choice("outcome", N_OUT)); w.result = vs_f64("result"); vs_assume(w.result == w.result); bool ext = vs_choice("external", 2); int extcalls = 0;
  g_calls = 0; w.m_evaluation_id = "before"; std::string id0 = w.getCurrentEvaluationID();
  double r = 0; bool proc_exc = false, other = false;
  try { r = ext ? w.process([&](W &x) { ++extcalls; vs_assert(&x == &w, "the external processor works on this item"); x.process_(); }) : w.process(); }
  catch (g_processing_exception &) { proc_exc = true; } catch (...) { other = true; }
  if (s0 != processingStatus::DO_PROCESS) {
    vs_assert(other && !proc_exc && g_calls == 0 && extcalls == 0, "items that are not due for processing are refused");
    vs_assert(w.getProcessingStatus() == s0 && (w.m_stored_results_cnt[0] == r0 || r0 != r0) && w.m_stored_error_descriptions == "old", "a refused item is unchanged");
    return;
  }
  vs_assert(g_calls == 1 && extcalls == int(ext), "the work is done exactly once, by the external processor if there is one");
  vs_assert(!other, "only processing exceptions leave process()");
  if (w.outcome == OK) {
    vs_assert(!proc_exc && flags_agree(w, processingStatus::PROCESSED), "successful processing ends in state PROCESSED");
    if (!vs_is_symbolic()) vs_assert(w.getCurrentEvaluationID() != id0 && w.getCurrentEvaluationID().size() > 30, "each evaluation gets a new id");
    vs_assert(r == w.result, "process() returns the main result");
    for (std::size_t i = 0; i < n; ++i) vs_assert(w.getStoredResult(i) == w.result + double(i), "all results are stored");
    vs_assert(w.getStoredErrorDescriptions().empty(), "no error description remains");
    vs_assert(vs_throws([&] { (void)w.getStoredResult(n); }), "there are exactly the registered results");
  } else {
    vs_assert(proc_exc, "an error is reported through a processing exception");
    vs_assert(flags_agree(w, w.outcome == FLAG_ERROR ? processingStatus::ERROR_FLAGGED : processingStatus::EXCEPTION_CAUGHT), "an error leaves the item in an error state, never in state PROCESSED");
    for (std::size_t i = 0; i < n; ++i) vs_assert(w.m_stored_results_cnt[i] == 0., "no result survives an error"); vs_assert((std::get<0>(w.getProcessingTimes()) == 0.) & (std::get<1>(w.getProcessingTimes()) == 0.) & (std::get<2>(w.getProcessingTimes()) == 0.), "no processing times survive an error");
    vs_assert(vs_throws([&] { (void)w.getStoredResult(0); }), "results of erroneous items cannot be retrieved");
    if (w.outcome == FLAG_ERROR) vs_assert(w.getStoredErrorDescriptions() == "flagged", "the description of a flagged error is kept");
  }
}
VS_ENTRY(pre_post_processing) {
  W w(1); w.mark_as_due_for_processing(); w.result = 1;
  bool pre = vs_choice("pre", 2), post = vs_choice("post", 2), vpre = vs_choice("veto pre", 2), vpost = vs_choice("veto post", 2); unsigned fail = unsigned(vs_choice("fail", 4));
  auto a = std::make_shared<Proc>(false), b = std::make_shared<Proc>(true); if (fail == 1) a->out = THROW_STD; if (fail == 2) b->out = THROW_STD; if (fail == 3) w.outcome = THROW_STD;
  if (pre) w.registerPreProcessor(a); if (post) w.registerPostProcessor(b);
  w.registerPreProcessor(nullptr); w.registerPostProcessor(nullptr);
  w.vetoPreProcessing(vpre); w.vetoPostProcessing(vpost);
  vs_assert(w.mayBePreProcessed() == !vpre && w.mayBePostProcessed() == !vpost, "vetoes are stored");
  g_calls = g_pre = g_post = 0; bool t = vs_throws([&] { w.process(); });
  bool dopre = pre && !vpre, dopost = post && !vpost; bool f1 = dopre && fail == 1, f2 = fail == 3, f3 = dopost && fail == 2;
  vs_assert(g_pre == int(dopre), "pre-processing takes place exactly when registered and not vetoed");
  vs_assert(g_calls == int(!f1), "processing follows successful pre-processing");
  vs_assert(g_post == int(dopost && !f1 && !f2), "post-processing takes place after successful processing, when registered and not vetoed");
  if (dopre) vs_assert(a->seen == &w, "processors work on this item"); if (g_post) vs_assert(b->seen == &w, "processors work on this item"); if (!t) vs_assert(w.getStoredResult(0) == (dopost ? 101. : 1.), "post-processing may change the results");
  vs_assert(t == (f1 || f2 || f3) && w.is_processed() == !t && w.has_errors() == t, "an exception in any stage leaves the item in an error state");
}
VS_ENTRY(transitions) {
  std::size_t n = 1 + vs_choice("n", 2); W w(n); unsigned a = unsigned(vs_choice("from", 5)), b = unsigned(vs_choice("to", 5)); processingStatus from = status(a), to = status(b); arbitrary(w, from);
  bool t = vs_throws([&] { w.set_processing_status(to); });
  bool ok = from == to || to == processingStatus::DO_IGNORE || to == processingStatus::DO_PROCESS;
  vs_assert(t == !ok, "only transitions to DO_IGNORE and DO_PROCESS can be requested");
  vs_assert(flags_agree(w, ok ? to : from), "the status is as requested, or unchanged if refused");
  if (ok && from != to) { vs_assert(w.getStoredErrorDescriptions().empty(), "a status change drops old errors"); for (std::size_t i = 0; i < n; ++i) vs_assert(w.m_stored_results_cnt[i] == 0., "a status change drops old results"); }
  else vs_assert(w.getStoredErrorDescriptions() == "old", "without a status change errors are kept");
  vs_assert(vs_throws([&] { (void)w.getStoredResult(0); }) == !w.is_processed(), "results are available exactly in state PROCESSED");
}
VS_ENTRY(marks) {
  std::size_t n = 1 + vs_choice("n", 3), m = vs_choice("m", 4); W w(n); processingStatus s = status(vs_choice("status", 5)); arbitrary(w, s);
  switch (vs_choice("op", 4)) {
    case 0: w.mark_as_due_for_processing(); vs_assert(flags_agree(w, processingStatus::DO_PROCESS), "items can be marked as due for processing in any state"); break;
    case 1: w.mark_as_ignorable(); vs_assert(flags_agree(w, processingStatus::DO_IGNORE), "items can be marked as ignorable in any state"); break;
    case 2: {
      std::vector<double> v; for (std::size_t i = 0; i < m; ++i) { double x = vs_f64("x"); vs_assume(x == x); v.push_back(x); }
      double r = 0; bool t = vs_throws([&] { r = w.markAsProcessedWith(v); });
      vs_assert(t == (n != m), "results of a different number are refused");
      if (t) { vs_assert(flags_agree(w, s), "refused results leave the status alone"); break; }
      vs_assert(r == v[0] && flags_agree(w, processingStatus::PROCESSED) && w.getStoredErrorDescriptions().empty(), "markAsProcessedWith leaves a processed item without errors");
      for (std::size_t i = 0; i < n; ++i) vs_assert(w.getStoredResult(i) == v[i], "externally computed results are stored"); break; }
    case 3: {
      bool t = vs_throws([&] { w.force_set_error(""); }); vs_assert(t && flags_agree(w, s), "an error without description is refused");
      w.force_set_error("e1"); vs_assert(flags_agree(w, processingStatus::ERROR_FLAGGED) && w.getStoredErrorDescriptions() == "olde1", "a flagged error is stored");
      std::string d = w.get_and_clear_exceptions(); vs_assert(d == "olde1" && flags_agree(w, processingStatus::DO_IGNORE) && w.getStoredErrorDescriptions().empty(), "get_and_clear_exceptions returns and clears the errors"); break; }
  }
}
// every member survives copying, assignment and loading
VS_ENTRY(copies) {
  std::size_t n = 1 + vs_choice("n", 2); W w(n); processingStatus s = status(vs_choice("status", 5)); arbitrary(w, s);
  w.m_iteration_counter = vs_u32("it"); w.m_resubmission_counter = vs_u32("rs"); w.m_collection_position = vs_u32("cp"); w.m_preProcessingDisabled = vs_bool("vpre"); w.m_postProcessingDisabled = vs_bool("vpost");
  w.m_pre_processing_time = 1; w.m_processing_time = 2; w.m_post_processing_time = 3; w.m_evaluation_id = "ev";
  w.m_bufferport_raw_retrieval_time += std::chrono::nanoseconds(1); w.m_bufferport_raw_submission_time += std::chrono::nanoseconds(2); w.m_bufferport_proc_retrieval_time += std::chrono::nanoseconds(3); w.m_bufferport_proc_submission_time += std::chrono::nanoseconds(4);
  w.setBufferId(vs_u32("id"));
  bool p = vs_choice("pre-processor", 2), q = vs_choice("post-processor", 2); if (p) w.registerPreProcessor(std::make_shared<Proc>(false)); if (q) w.registerPostProcessor(std::make_shared<Proc>(true));
  W o(1); if (vs_choice("target had processors", 2)) { o.registerPreProcessor(std::make_shared<Proc>(true)); o.registerPostProcessor(std::make_shared<Proc>(true)); }
  W *c = nullptr;
  switch (vs_choice("kind", 3)) { case 0: c = new W(w); break; case 1: o = w; c = &o; break; case 2: o.load_pc(&w); c = &o; break; }
  vs_assert((c->getIterationCounter() == w.getIterationCounter()) & (c->getResubmissionCounter() == w.getResubmissionCounter()) & (c->getCollectionPosition() == w.getCollectionPosition()), "counters and position are copied");
  vs_assert((c->mayBePreProcessed() == w.mayBePreProcessed()) & (c->mayBePostProcessed() == w.mayBePostProcessed()), "vetoes are copied");
  vs_assert(flags_agree(*c, s) && c->getStoredErrorDescriptions() == "old" && c->getNStoredResults() == n, "status, errors and number of results are copied");
  for (std::size_t i = 0; i < n; ++i) { double x = c->m_stored_results_cnt[i], y = w.m_stored_results_cnt[i]; vs_assert((x == y) | (y != y), "results are copied"); }
  vs_assert(std::get<0>(c->getProcessingTimes()) == 1 && std::get<1>(c->getProcessingTimes()) == 2 && std::get<2>(c->getProcessingTimes()) == 3, "processing times are copied");
  vs_assert(c->getCurrentEvaluationID() == "ev", "the evaluation id is copied");
  vs_assert(c->getRawRetrievalTime() == w.getRawRetrievalTime() && c->getRawSubmissionTime() == w.getRawSubmissionTime() && c->getProcRetrievalTime() == w.getProcRetrievalTime() && c->getProcSubmissionTime() == w.getProcSubmissionTime(), "time stamps are copied");
  vs_assert(c->getBufferId() == w.getBufferId(), "the buffer port id is copied");
  vs_assert(bool(c->m_pre_processor_ptr) == p && bool(c->m_post_processor_ptr) == q, "processors are copied");
  if (p) vs_assert(c->m_pre_processor_ptr != w.m_pre_processor_ptr, "copies do not share their processors"); if (q) vs_assert(c->m_post_processor_ptr != w.m_post_processor_ptr, "copies do not share their processors");
}
