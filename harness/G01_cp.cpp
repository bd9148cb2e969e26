// Contract of the checkpoint decision (G_OptimizationAlgorithm_Base::checkpoint); writing the file itself is by contract only.
// vs: link src/geneva/G_OptimizationAlgorithm_Base.cpp
// vs: opaque ^Gem::Common::touch_time => noop
// vs: model ^Gem::Geneva::G_OptimizationAlgorithm_Base::saveCheckpoint => vs_model_save
// vs: model ^bool std::filesystem::exists\(std::filesystem::__cxx11::path const&\)$|^std::filesystem::exists\(std::filesystem::__cxx11::path const&\) => vs_model_exists
// vs: model ^std::filesystem::remove\(std::filesystem::__cxx11::path const&\) => vs_model_remove
// vs: model ^std::filesystem::__cxx11::path::string\(\) const => vs_model_empty_string
// vs: model ^std::__cxx11::basic_string<char.*> std::operator\+<char => vs_model_empty_string
// vs: model ^std::filesystem::(__cxx11::)?operator/|^std::filesystem::__cxx11::path::path\(|^std::filesystem::__cxx11::path::path<|::getCheckpointDirectoryPath => vs_model_path
// vs: model ^std::filesystem::last_write_time\(std::filesystem::__cxx11::path const&\) => vs_model_mtime
// vs: model ^std::filesystem::create_directory\(std::filesystem::__cxx11::path const&\) => vs_model_mkdir
// vs: model ^std::filesystem::is_directory\(std::filesystem::__cxx11::path const&\) => vs_model_isdir
// vs: bound checkpoint decisions for the iterations 0, 1, 5, 6, 7, 12
// vs: symonly
#include "geneva/G_OptimizationAlgorithm_Base.hpp"
#include "ind.hpp"
extern "C" void vs_model_path(void *p) { __builtin_memset(p, 0, sizeof(std::filesystem::path)); }
static int g_saved = 0, g_removed = 0; static bool g_exists = false;
extern "C" void vs_model_save(const G_OptimizationAlgorithm_Base *, const std::filesystem::path *) { ++g_saved; }
extern "C" bool vs_model_exists(const std::filesystem::path *) { return g_exists; }
extern "C" bool vs_model_remove(const std::filesystem::path *) { vs_assert(g_saved == 1, "an old checkpoint is removed only after the new one has been written"); ++g_removed; return true; }
static std::int64_t g_mtime = 0; static bool g_mkdir = false, g_isdir = false; static int g_made = 0;
extern "C" std::int64_t vs_model_mtime(const std::filesystem::path *) { vs_assert(g_exists, "modification times are only asked for files that exist"); return g_mtime; }
extern "C" bool vs_model_mkdir(const std::filesystem::path *) { ++g_made; return g_mkdir; }
extern "C" bool vs_model_isdir(const std::filesystem::path *) { return g_isdir; }
struct Alg : G_OptimizationAlgorithm_Base {
  Alg() = default;
  Alg(const Alg &) = default;
  std::string name_() const override { return "Alg"; }
  GObject *clone_() const override { return new Alg(*this); }
  void runFitnessCalculation_() override {}
  std::string getAlgorithmPersonalityType_() const override { return "PERSONALITY_ALG"; }
  std::string getAlgorithmName_() const override { return "Alg"; }
  std::shared_ptr<GPersonalityTraits> getPersonalityTraits_() const override { return std::make_shared<PT>(); }
  void adjustPopulation_() override {}
  void actOnStalls_() override {}
  std::tuple<double, double> cycleLogic_() override { return std::make_tuple(0., 0.); }
};
struct Ex : Gem::Courtier::GBaseExecutorT<GParameterSet> {
  using B = Gem::Courtier::GBaseExecutorT<GParameterSet>;
  Ex() = default;
  Ex(const Ex &) = default;
  B *clone_() const override { return new Ex(*this); }
  std::string name_() const override { return "Ex"; }
  std::chrono::high_resolution_clock::time_point determineInitialCycleStartTime() const override { return getObjectFirstSubmissionTime(); }
  void visualize_performance() override {}
  void submit(IP) override {}
  Gem::Courtier::executor_status_t waitForReturn(std::vector<IP> &w, std::vector<IP> &) override { return checkExecutionState(w); }
};
VS_ENTRY(checkpoint) {
  Alg *a = new Alg; a->m_bestGlobalIndividuals_pq.m_data_deq.push_back(processed(1, 1, maxMode::MINIMIZE, 0));
  std::int32_t iv = vs_i32("interval"); static const std::uint32_t ITS[6] = {0, 1, 5, 6, 7, 12}; std::uint32_t it = ITS[vs_choice("it", 6)]; a->setCheckpointInterval(iv); a->m_iteration = it; a->m_halted = bool(vs_choice("halted", 2)); bool b = vs_choice("better", 2); bool rm = vs_choice("remove", 2); a->setRemoveCheckpointFiles(rm); std::uint64_t old = vs_choice("old", 3); a->m_cp_last = old == 1 ? "last" : old == 2 ? "" : "empty"; /* all file names are empty here: 2 is a file of the same name */ g_exists = vs_choice("exists", 2);
  vs_assume(iv <= 8);
  bool due = ((iv < 0) & b) | a->halted(); if (iv > 0) due = due | (it % std::uint32_t(iv) == 0);
  a->checkpoint(b);
  vs_assert(g_saved == int(due), "a checkpoint is written on improvements, at each checkpoint interval or at the end, as requested");
  vs_assert(g_removed == int(due & rm & (old == 1) & g_exists), "the previous checkpoint file is removed exactly if this was requested, after the new one has been written, and never the new one");
  if (!due) vs_assert(a->m_cp_last == (old == 1 ? "last" : old == 2 ? "" : "empty"), "the last checkpoint is remembered"); else vs_assert(a->m_cp_last.empty(), "the new checkpoint becomes the last one");
}
VS_ENTRY(touched) { // termination by a file
  Alg *a = new Alg; a->push_back(processed(1, 1, maxMode::MINIMIZE, 0)); g_exists = vs_choice("exists", 2); g_mtime = vs_i64("mtime"); std::int64_t st = vs_i64("start"); static_assert(sizeof(a->m_file_startTime) == 8); __builtin_memcpy(&a->m_file_startTime, &st, 8); bool on = vs_choice("on", 2);
  a->setTerminationFile("stop", on); bool f = !on; vs_assert(a->getTerminationFile(f) == "stop" && f == on, "the termination file is recorded"); a->m_maxIteration = 0; a->m_minIteration = 0; a->m_maxStallIteration = 0; a->m_iteration = 5; a->m_minDuration = std::chrono::duration<double>(-1.); a->m_maxDuration = std::chrono::duration<double>(0.); a->m_hasQualityThreshold = false; a->m_emitTerminationReason = vs_choice("emit", 2); bool w = g_exists & (g_mtime > st);
  vs_assert(a->halt() == (on & w), "a run is terminated by a file exactly if this was requested and the file has been modified after its start");
}
VS_ENTRY(directory) {
  Alg *a = new Alg; a->m_cp_base_name = "old"; static const char *names[3] = {"empty", "", "name"}; std::uint64_t d = vs_choice("dir", 3), b = vs_choice("base", 3); g_exists = vs_choice("exists", 2); g_mkdir = vs_choice("mkdir", 2); g_isdir = vs_choice("isdir", 2);
  bool t = vs_throws([&] { a->setCheckpointBaseName(names[d], names[b]); }); bool bad = (d != 2) | (b != 2); vs_assert(t == (bad | (g_exists ? !g_isdir : !g_mkdir)), "names that are invalid and directories that cannot be used are refused"); vs_assert(g_made == int(!bad & !g_exists), "a missing directory is created"); vs_assert(a->getCheckpointBaseName() == (bad ? "old" : "name"), "the base name is recorded");
}
VS_ENTRY(executors) { // registering executors that must not be used
  Alg *a = new Alg; auto e = std::make_shared<Ex>(), f = std::make_shared<Ex>(); a->m_executor_ptr = e; bool run = vs_choice("running", 2); a->m_halted = !run; a->registerExecutor(run ? f : std::shared_ptr<Ex>(), ""); vs_assert(a->m_executor_ptr == e, "an executor is neither replaced by an empty one nor during a run");
}
