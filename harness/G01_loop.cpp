// Contracts of the optimisation loop (G_OptimizationAlgorithm_Base): halting, best and stall bookkeeping, monitors.
// vs: link src/geneva/G_OptimizationAlgorithm_Base.cpp
// vs: opaque ^Gem::Common::touch_time => noop
// vs: opaque ^Gem::Geneva::G_OptimizationAlgorithm_Base::checkpoint => noop
// vs: bound optimisation runs of up to 3 iterations with populations of up to 2 individuals
// vs: entry stall_counter complete=1
#include "geneva/G_OptimizationAlgorithm_Base.hpp"
#include "ind.hpp"
static std::int64_t g_now = 1000000000000; 
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(g_now)); }
struct Alg : G_OptimizationAlgorithm_Base {
  int n_cycles = 0, n_init = 0, n_fin = 0, n_adjust = 0, n_stall = 0, n_custom = 0; bool custom = false;
  std::uint32_t seen_it[4], stalls_at[4]; bool halted_in_cycle = false, pers = true; double raw[4], tr[4]; std::uint32_t info[4] = {0, 0, 0, 0};
  Alg() = default;
  Alg(const Alg &) = default;
  std::string name_() const override { return "Alg"; }
  GObject *clone_() const override { return new Alg(*this); }
  void runFitnessCalculation_() override {}
  std::string getAlgorithmPersonalityType_() const override { return "PERSONALITY_ALG"; }
  std::string getAlgorithmName_() const override { return "Alg"; }
  std::shared_ptr<GPersonalityTraits> getPersonalityTraits_() const override { return std::make_shared<PT>(); }
  void adjustPopulation_() override { ++n_adjust; }
  void actOnStalls_() override { ++n_stall; }
  bool customHalt_() const override { return custom; }
  void init() override { ++n_init; vs_assert((n_adjust == 1) & (n_cycles == 0), "the population is adjusted before init() and init() precedes the first cycle"); }
  void finalize() override { ++n_fin; }
  std::tuple<double, double> cycleLogic_() override {
    int k = n_cycles++; seen_it[k] = getIteration(); if (halted()) halted_in_cycle = true; if (!at(0)->m_pt_ptr) pers = false;
    for (auto &p : *this) vs_assert(p->getAssignedIteration() == seen_it[k], "individuals know the iteration they are processed in");
    Ind &i = *ind(at(0)); i.m_processing_status = processingStatus::PROCESSED; i.m_stored_results_cnt[0] = parameterset_processing_result(raw[k], tr[k]); i.m_evaluation_id = ID[k];
    return std::make_tuple(raw[k], tr[k]);
  }
};
struct Mon : GBasePluggableOM {
  int n[3] = {0, 0, 0}; std::uint32_t its[4]; 
  std::string name_() const override { return "Mon"; }
  GObject *clone_() const override { return new Mon(*this); }
  void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const * const g) override { if (m == infoMode::INFOPROCESSING) its[n[1]] = g->getIteration(); ++n[int(m)]; }
};
static VS_NOINLINE double secs(std::uint64_t k) { switch (k) { case 0: return 0.; case 1: return 2.; default: return 5.5; } }
VS_ENTRY(halt) {
  Alg *a = new Alg; maxMode m = mode(vs_choice("mode", 2)); a->push_back(processed(0, 0, m, 0));
  a->m_iteration = vs_u32("it"); a->m_minIteration = vs_u32("minit"); a->m_maxIteration = vs_u32("maxit"); a->m_stallCounter = vs_u32("stall"); a->m_maxStallIteration = vs_u32("maxstall");
  double mind = secs(vs_choice("mindur", 3)), maxd = secs(vs_choice("maxdur", 3)); a->m_minDuration = std::chrono::duration<double>(mind); a->m_maxDuration = std::chrono::duration<double>(maxd);
  std::int64_t el[6] = {0, 1000000000, 2000000000, 3000000000, 5500000000, 60000000000}; std::int64_t e = el[vs_choice("elapsed", 6)];
  a->m_startTime = std::chrono::system_clock::time_point(std::chrono::system_clock::duration(g_now)); g_now += e; double es = double(e) / 1e9;
  double best = vs_f64("best"), tbest = vs_f64("tbest"), q = vs_f64("quality"); a->m_bestKnownPrimaryFitness = std::make_tuple(best, tbest); a->m_hasQualityThreshold = vs_bool("hasq"); a->m_qualityThreshold = q;
  a->custom = vs_bool("custom"); a->m_emitTerminationReason = vs_choice("emit", 2); GObject::GenevaSigHupSent = int(vs_choice("sig", 2)); bool sig = GObject::G_SIGHUP_SENT();
  bool crit = ((a->m_maxIteration != 0) & (a->m_iteration >= a->m_maxIteration)) | ((a->m_maxStallIteration != 0) & (a->m_stallCounter > a->m_maxStallIteration)) | ((maxd != 0) & (es >= maxd)) | (a->m_hasQualityThreshold & better(best, q, m)) | a->custom;
  bool want = sig | ((a->m_iteration > a->m_minIteration) & (es > mind) & crit);
  bool r = a->halt(); GObject::GenevaSigHupSent = 0;
  vs_assert(r == want, "the run halts exactly if a criterion has fired and the minimum iteration and time have passed, or on a signal");
}
VS_ENTRY(stall_counter) {
  Alg *a = new Alg; maxMode m = mode(vs_choice("mode", 2)); a->push_back(processed(0, 0, m, 0));
  double br = vs_f64("braw"), bt = vs_f64("btr"), r = vs_f64("raw"), t = vs_f64("tr"); std::uint32_t s = vs_u32("stall"); vs_assume(s < 0xffffffffu); a->m_stallCounter = s; a->m_bestKnownPrimaryFitness = std::make_tuple(br, bt);
  a->updateStallCounter(std::make_tuple(r, t)); bool imp = better(t, bt, m);
  vs_assert(a->getStallCounter() == (imp ? 0u : s + 1), "the stall counter is reset by an improvement of the transformed fitness and incremented otherwise");
  vs_assert(a->progress() == imp, "progress means that the last iteration was an improvement");
  vs_assert(vs_same(std::get<0>(a->m_bestKnownPrimaryFitness), imp ? r : br) & vs_same(std::get<1>(a->m_bestKnownPrimaryFitness), imp ? t : bt), "the best known fitness is replaced exactly by better values");
}
VS_ENTRY(run) {
  Alg *a = new Alg; maxMode m = mode(vs_choice("mode", 2)); std::size_t n = 1 + vs_choice("n", 2); 
  for (std::size_t i = 0; i < n; ++i) { auto p = std::make_shared<Ind>(); p->m_maxmode = m; p->m_evaluation_id = ID[7]; p->m_processing_status = i ? processingStatus::DO_IGNORE : processingStatus::DO_PROCESS; a->push_back(p); }
  unsigned N = 1 + unsigned(vs_choice("iterations", 3)); std::uint32_t off = vs_u32("offset"); vs_assume(off < 1000000u); 
  static const char *fr[3] = {"raw0", "raw1", "raw2"}, *ft[3] = {"tr0", "tr1", "tr2"};
  for (unsigned k = 0; k < 3; ++k) { a->raw[k] = fin(fr[k]); a->tr[k] = fin(ft[k]); }
  unsigned rep = unsigned(vs_choice("report", 3)); a->setReportIteration(rep); if (rep) vs_assume(off == 6); 
  unsigned thr = unsigned(vs_choice("threshold", 2)); a->setStallCounterThreshold(thr); a->m_maxStallIteration = 0; a->m_maxIteration = off + N; a->m_minIteration = 0; a->m_minDuration = std::chrono::duration<double>(-1.); a->m_maxDuration = std::chrono::duration<double>(0.); a->m_emitTerminationReason = false; a->m_cp_interval = 0;
  auto mon = std::make_shared<Mon>(), mon2 = std::make_shared<Mon>(); a->registerPluggableOM(mon); a->registerPluggableOM(mon2);
  a->m_stallCounter = vs_u32("old_stall"); a->m_bestKnownPrimaryFitness = a->m_bestCurrentPrimaryFitness = std::make_tuple(fin("old_raw"), fin("old_tr")); // left over from an earlier run
  vs_assert(a->halted(), "an algorithm that does not run is halted");
  auto ret = a->optimize(off);
  vs_assert(ret == a, "optimize returns the algorithm");
  vs_assert(a->n_cycles == int(N), "the loop ends after the iteration in which a halt criterion fires");
  for (unsigned k = 0; k < N; ++k) vs_assert(a->seen_it[k] == off + k, "iterations are numbered consecutively from the offset");
  vs_assert(a->getIteration() == off + N && a->getStartIteration() == off, "the iteration counter tells the number of iterations done");
  vs_assert(!a->halted_in_cycle && a->halted(), "the algorithm is running during its cycles only");
  vs_assert(a->pers && !a->at(0)->m_pt_ptr && !a->at(n - 1)->m_pt_ptr, "individuals have the personality of the algorithm while it runs, and none afterwards");
  vs_assert(a->n_init == 1 && a->n_fin == 1 && a->n_adjust == 1, "init, finalize and adjustPopulation are called once");
  double br = a->raw[0], bt = a->tr[0]; std::uint32_t stall = 0; int acts = 0; 
  for (unsigned k = 1; k < N; ++k) { bool imp = better(a->tr[k], bt, m); br = imp ? a->raw[k] : br; bt = imp ? a->tr[k] : bt; stall = imp ? 0 : stall + 1; acts += int(bool((thr != 0) & (stall > thr))); }
  vs_assert(a->getStallCounter() == stall, "the stall counter is the number of iterations since the last improvement");
  vs_assert((std::get<0>(a->m_bestKnownPrimaryFitness) == br) & (std::get<1>(a->m_bestKnownPrimaryFitness) == bt), "the best known fitness is the best of all iterations");
  vs_assert((std::get<0>(a->getBestCurrentPrimaryFitness()) == a->raw[N - 1]) & (std::get<1>(a->getBestCurrentPrimaryFitness()) == a->tr[N - 1]), "the current best fitness is that of the last iteration");
  auto bg = a->getBestGlobalIndividual<Ind>(); vs_assert(bg && bg.get() != a->at(0).get(), "the best individual is kept as a copy");
  vs_assert((bg->transformed_fitness(0) == bt), "the best individual recorded is the best found in the whole run");
  auto bi = a->getBestIterationIndividual<Ind>(); vs_assert(bi->transformed_fitness(0) == a->tr[N - 1], "the best individual of the iteration comes from the last iteration");
  for (std::size_t i = 0; i < n; ++i) vs_assert(a->at(i)->getNStalls() == stall && std::get<1>(a->at(i)->getBestKnownPrimaryFitness()) == bt, "individuals are told the stall counter and the best known fitness");
  vs_assert(a->n_stall == acts, "the algorithm acts on stalls exactly beyond the threshold");
  unsigned np = 0; if (rep) for (unsigned k = 0; k < N; ++k) if ((6 + k) % rep == 0) { vs_assert(mon->its[np] == 6 + k, "monitors are called with the iteration just performed"); ++np; }
  vs_assert(mon->n[int(infoMode::INFOINIT)] == int(rep != 0) && mon->n[int(infoMode::INFOEND)] == int(rep != 0) && mon->n[int(infoMode::INFOPROCESSING)] == int(np), "monitors are informed once at the start and the end and at each report interval");
  for (int k = 0; k < 3; ++k) vs_assert(mon2->n[k] == mon->n[k], "all monitors are informed alike");
}
VS_ENTRY(limits) {
  Alg *a = new Alg; std::uint32_t mi = vs_u32("minit"), ma = vs_u32("maxit"), x = vs_u32("new"); vs_assume((ma == 0) | (ma > mi)); a->m_minIteration = mi; a->m_maxIteration = ma; bool mx = vs_choice("which", 2);
  bool t = vs_throws([&] { if (mx) a->setMaxIteration(x); else a->setMinIteration(x); });
  vs_assert(t == (mx ? (x != 0) & (x <= mi) : (ma != 0) & (ma <= x)), "a maximum number of iterations is refused exactly if it does not exceed the minimum");
  vs_assert((a->getMaxIteration() == (mx & !t ? x : ma)) & (a->getMinIteration() == (!mx & !t ? x : mi)), "iteration limits are set if accepted and left alone otherwise");
  double d0 = secs(vs_choice("mind", 3)), d1 = secs(vs_choice("maxd", 3)), y = secs(vs_choice("newd", 3)); vs_assume((d1 == 0) | (d1 >= d0)); a->m_minDuration = std::chrono::duration<double>(d0); a->m_maxDuration = std::chrono::duration<double>(d1);
  bool u = vs_throws([&] { if (mx) a->setMaxTime(std::chrono::duration<double>(y)); else a->setMinTime(std::chrono::duration<double>(y)); });
  vs_assert(u == (mx ? (y != 0) & (y < d0) : (d1 != 0) & (d1 < y)), "a maximum duration is refused exactly if it is smaller than the minimum");
  vs_assert((a->getMaxTime().count() == (mx & !u ? y : d1)) & (a->getMinTime().count() == (!mx & !u ? y : d0)), "durations are set if accepted and left alone otherwise");
  std::size_t k = vs_choice("record", 3); bool v = vs_throws([&] { a->setNRecordBestIndividuals(k); }); vs_assert(v == (k == 0), "at least one best individual is recorded");
  if (!v) vs_assert(a->getNRecordBestIndividuals() == k && a->m_bestGlobalIndividuals_pq.getMaxSize() == k, "the requested number of best individuals is recorded");
  vs_assert(vs_throws([&] { a->registerPluggableOM(std::shared_ptr<GBasePluggableOM>()); }) && !a->hasPluggableOptimizationMonitors(), "empty monitors are refused");
}
VS_ENTRY(reset) {
  Alg *a = new Alg; maxMode m = mode(vs_choice("mode", 2)); std::size_t n = vs_choice("n", 3); for (std::size_t i = 0; i < n; ++i) { a->push_back(processed(1, 1, m, int(i))); a->m_bestGlobalIndividuals_pq.m_data_deq.push_back(processed(1, 1, m, 5)); }
  a->m_iteration = vs_u32("it"); a->m_stallCounter = vs_u32("stall"); a->m_maxIteration = 77; a->m_bestKnownPrimaryFitness = std::make_tuple(1., 2.); a->m_bestCurrentPrimaryFitness = std::make_tuple(3., 4.); a->setQualityThreshold(4., true); for (std::size_t i = 0; i < n; ++i) { a->m_bestIterationIndividuals_pq.m_data_deq.push_back(processed(1, 1, m, 6)); a->m_worstKnownValids_cnt.push_back(std::make_tuple(1., 1.)); }
  a->resetToOptimizationStart();
  vs_assert(a->empty() && a->getIteration() == 0 && a->getStallCounter() == 0 && a->m_bestGlobalIndividuals_pq.empty() && a->m_bestIterationIndividuals_pq.empty() && a->halted(), "a reset removes individuals, records and counters"); vs_assert(a->m_worstKnownValids_cnt.empty() && !a->m_executor_ptr, "a reset forgets the worst evaluations and the executor");
  vs_assert(std::get<0>(a->m_bestKnownPrimaryFitness) == 0 && std::get<1>(a->m_bestCurrentPrimaryFitness) == 0 && a->getMaxIteration() == 77 && a->hasQualityThreshold(), "a reset keeps the configuration");
}
VS_ENTRY(bests) {
  Alg *a = new Alg; maxMode m = mode(vs_choice("mode", 2)); a->setNRecordBestIndividuals(2); std::size_t n = 1 + vs_choice("n", 3); double f[3]; bool pr[3]; static const char *fn[3] = {"f0", "f1", "f2"}, *pn[3] = {"p0", "p1", "p2"};
  unsigned k = 0; for (std::size_t i = 0; i < n; ++i) { f[i] = fin(fn[i]); pr[i] = vs_choice(pn[i], 2); auto p = processed(f[i], f[i], m, int(i)); if (!pr[i]) p->m_processing_status = vs_choice("other", 2) ? processingStatus::DO_PROCESS : processingStatus::EXCEPTION_CAUGHT; else ++k; a->push_back(p); }
  bool start = vs_choice("start", 2); if (start) a->addCleanStoredBests(a->m_bestGlobalIndividuals_pq); else { a->updateGlobalBestsPQ_(a->m_bestGlobalIndividuals_pq); a->updateIterationBestsPQ_(a->m_bestIterationIndividuals_pq); }
  vs_assert(a->m_bestGlobalIndividuals_pq.size() == (k < 2 ? k : 2), "as many of the best individuals as requested are recorded, unprocessed and erroneous ones never");
  if (k) {
    double b = 0; bool first = true; for (std::size_t i = 0; i < n; ++i) if (pr[i]) { b = first || better(f[i], b, m) ? f[i] : b; first = false; }
    auto g = a->m_bestGlobalIndividuals_pq.best(); vs_assert(g->transformed_fitness(0) == b, "the best processed individual comes first");
    for (std::size_t i = 0; i < n; ++i) vs_assert(g.get() != a->at(i).get(), "records are copies of the individuals");
    if (!start) { vs_assert(a->m_bestIterationIndividuals_pq.size() == k && a->m_bestIterationIndividuals_pq.best()->transformed_fitness(0) == b, "all individuals of the iteration are available, best first"); 
      auto v = a->getBestGlobalIndividuals<Ind>(); vs_assert(v.size() == (k < 2 ? k : 2) && v[0]->transformed_fitness(0) == b && v[0].get() != g.get(), "the best individuals are handed out as copies"); }
  } else if (!start) vs_assert(vs_throws([&] { a->getBestGlobalIndividuals<Ind>(); }), "asking for the best individuals is an error if there are none");
}
