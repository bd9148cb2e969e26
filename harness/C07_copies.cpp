// Contracts of copies: clone(), copy construction and load() of individuals, algorithms and factories reproduce the complete state.
// vs: link src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp src/geneva/G_OptimizationAlgorithm_GradientDescent_PersonalityTraits.cpp
// vs: link src/geneva/G_OptimizationAlgorithm_ParChild.cpp src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp src/geneva/G_OptimizationAlgorithm_ParChildT_PersonalityTraits.cpp src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm_PersonalityTraits.cpp
// vs: link src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing_PersonalityTraits.cpp src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp src/geneva/G_OptimizationAlgorithm_ParameterScan_PersonalityTraits.cpp
// vs: nlink src/geneva/GParameterPropertyParser.cpp src/geneva/GDoubleGaussAdaptor.cpp
// vs: bound populations of up to 2 individuals, up to 2 parameters, results and stored values (loops over containers are unrolled for these sizes)
// vs: contract std::filesystem paths (the checkpoint directory) are compared in native runs only
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan_PersonalityTraits.hpp"
#include "geneva/GParameterSetFactory.hpp"
#include "points.hpp"
using Base = G_OptimizationAlgorithm_Base;
// arbitrary values of members, and their comparison
static const char *STR[3] = {"a", "another", "one more"}; static unsigned g_str = 0; // distinct strings
static VS_NOINLINE void any(double &x) { x = vs_f64("f64"); }
static VS_NOINLINE void any(bool &x) { x = vs_bool("b"); }
static VS_NOINLINE void any(std::uint16_t &x) { x = std::uint16_t(vs_u32("u16")); }
static VS_NOINLINE void any(std::uint32_t &x) { x = vs_u32("u32"); }
static VS_NOINLINE void any(std::int32_t &x) { x = vs_i32("i32"); }
static VS_NOINLINE void any(std::size_t &x) { x = vs_u64("u64"); }
static VS_NOINLINE void any(std::string &x) { x = STR[g_str++ % 3]; }
static void any(std::tuple<double, double> &x) { any(std::get<0>(x)); any(std::get<1>(x)); }
static void any(std::chrono::duration<double> &x) { double d; any(d); x = std::chrono::duration<double>(d); }
template <class T> static typename std::enable_if<std::is_enum<T>::value>::type any(T &x) { x = T(vs_u32("enum") & 1); }
static void any(std::vector<double> &x) { x.resize(1 + g_str++ % 2); for (double &y : x) any(y); }
static void any(std::vector<std::tuple<double, double>> &x) { x.resize(1 + g_str++ % 2); for (auto &y : x) any(y); }
template <class T> static bool same(const T &a, const T &b) { return a == b; }
static bool same(double a, double b) { std::uint64_t x, y; __builtin_memcpy(&x, &a, 8); __builtin_memcpy(&y, &b, 8); return x == y; }
static bool same(const std::tuple<double, double> &a, const std::tuple<double, double> &b) { return same(std::get<0>(a), std::get<0>(b)) & same(std::get<1>(a), std::get<1>(b)); }
static bool same(const std::chrono::duration<double> &a, const std::chrono::duration<double> &b) { return same(a.count(), b.count()); }
template <class T> static bool same(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r = r & same(a[i], b[i]); return r; }
// ------------------------------------------------------------------ individuals
#define PS_MEMBERS(X) X(m_n_stalls) X(m_best_past_primary_fitness) X(m_maxmode) X(m_assigned_iteration) X(m_validity_level) X(m_eval_policy) X(m_sigmoid_steepness) X(m_sigmoid_extremes) X(m_max_unsuccessful_adaptions) X(m_max_retries_until_valid) X(m_n_adaptions) \
  X(m_iteration_counter) X(m_resubmission_counter) X(m_collection_position) X(m_preProcessingDisabled) X(m_postProcessingDisabled) X(m_processing_status)
enum { NOPT, T_EA, T_SW, T_GD, T_PS, T_SA };
static VS_NOINLINE GPersonalityTraits *mktraits(int k) {
  switch (k) { case T_EA: return new GEvolutionaryAlgorithm_PersonalityTraits; case T_SW: return new GSwarmAlgorithm_PersonalityTraits; case T_GD: return new GGradientDescent_PersonalityTraits; case T_PS: return new GParameterScan_PersonalityTraits; default: return new GSimulatedAnnealing_PersonalityTraits; }
}
struct Cons : GPreEvaluationValidityCheckT<GParameterSet> {
  double level = 0;
  GObject *clone_() const override { return new Cons(*this); }
  void load_(const GObject *o) override { GPreEvaluationValidityCheckT<GParameterSet>::load_(o); level = static_cast<const Cons *>(o)->level; }
  double check_(const GParameterSet *) const override { return level; }
};
struct Proc : Gem::Common::GSerializableFunctionObjectT<GParameterSet> {
  int id = 0; explicit Proc(int i = 0) : id(i) {}
  Gem::Common::GSerializableFunctionObjectT<GParameterSet> *clone_() const override { return new Proc(*this); }
  void load_(const Gem::Common::GSerializableFunctionObjectT<GParameterSet> *o) override { id = static_cast<const Proc *>(o)->id; }
  bool process_(GParameterSet &) override { return true; }
};
// an individual of some structure; pick selects what may be present
static VS_NOINLINE Ind *anyind(const char *n, int what) {
  Ind *p = new Ind(1);
  int k = what == 0 ? int(vs_choice("traits", 6)) : NOPT;
  if (k) p->m_pt_ptr.reset(mktraits(k));
  if (what == 1 && vs_choice("cons", 2)) { auto c = std::make_shared<Cons>(); any(c->level); p->m_individual_constraint_ptr = c; }
  if (what == 1 && vs_choice("pre", 2)) p->m_pre_processor_ptr = std::make_shared<Proc>(vs_i32("id"));
  if (what == 1 && vs_choice("post", 2)) p->m_post_processor_ptr = std::make_shared<Proc>(vs_i32("id"));
  if (what == 2) for (std::size_t i = 0, m = vs_choice("n", 3); i < m; ++i) { if (vs_choice("kind", 2)) { int x = vs_i32("int"); p->push_back(std::make_shared<GInt32Object>(x)); } else { double x = fin("double"); p->push_back(std::make_shared<GDoubleObject>(x)); } }
  return p;
}
static VS_NOINLINE void ind_state(Ind *p) {
#define X(m) any(p->m);
  PS_MEMBERS(X)
#undef X
  p->m_stored_results_cnt[0] = parameterset_processing_result(vs_f64("raw"), vs_f64("transformed")); any(p->m_evaluation_id); any(p->m_stored_error_descriptions);
}
static VS_NOINLINE void ind_same(const Ind *a, const Ind *b) {
#define X(m) vs_assert(same(a->m, b->m), "a copied individual has the same " #m);
  PS_MEMBERS(X)
#undef X
  vs_assert(a->m_stored_results_cnt.size() == b->m_stored_results_cnt.size(), "a copied individual has the same results");
  vs_assert(same(a->m_stored_results_cnt[0].rawFitness(), b->m_stored_results_cnt[0].rawFitness()) & same(a->m_stored_results_cnt[0].transformedFitness(), b->m_stored_results_cnt[0].transformedFitness()), "a copied individual has the same results");
  vs_assert(same(a->m_evaluation_id, b->m_evaluation_id) && same(a->m_stored_error_descriptions, b->m_stored_error_descriptions), "a copied individual has the same evaluation id and error descriptions");
}
static VS_NOINLINE Ind *copyind(const Ind *a, int what) {
  switch (vs_choice("how", 3)) { case 0: return new Ind(*a); case 1: { Ind *b = static_cast<Ind *>(a->clone_()); return b; }
    default: { Ind *b = anyind("b", what); b->GObject::load(static_cast<const GObject &>(*a)); return b; } }
}
VS_ENTRY(individual_state) { Ind *a = anyind("a", 3); ind_state(a); Ind *b = copyind(a, 3); ind_same(a, b); vs_cover("copied"); }
VS_ENTRY(individual_traits) {
  Ind *a = anyind("a", 0); GPersonalityTraits *t = a->m_pt_ptr.get(); Ind *b = copyind(a, 0);
  vs_assert(a->m_pt_ptr.get() == t, "copying does not change the source"); vs_assert((!a->m_pt_ptr) == (!b->m_pt_ptr), "a copy has personality traits exactly if its source has");
  if (t) { GPersonalityTraits *u = b->m_pt_ptr.get(); vs_assert(t != u && typeid(*t) == typeid(*u), "a copy has personality traits of its own, of the type of those of its source"); }
}
VS_ENTRY(individual_parts) {
  Ind *a = anyind("a", 1), *b = copyind(a, 1); auto *ca = static_cast<Cons *>(a->m_individual_constraint_ptr.get()), *cb = static_cast<Cons *>(b->m_individual_constraint_ptr.get());
  vs_assert((!ca) == (!cb), "a copy has a constraint exactly if its source has"); if (ca) vs_assert(ca != cb && same(ca->level, cb->level), "a copy has an equal constraint of its own");
  auto *pa = static_cast<Proc *>(a->m_pre_processor_ptr.get()), *pb = static_cast<Proc *>(b->m_pre_processor_ptr.get()), *qa = static_cast<Proc *>(a->m_post_processor_ptr.get()), *qb = static_cast<Proc *>(b->m_post_processor_ptr.get());
  vs_assert((!pa) == (!pb) && (!qa) == (!qb), "a copy has the processors of its source"); if (pa) vs_assert(pa != pb && pa->id == pb->id, "a copy has an equal pre-processor of its own"); if (qa) vs_assert(qa != qb && qa->id == qb->id, "a copy has an equal post-processor of its own");
}
VS_ENTRY(individual_parameters) {
  Ind *a = anyind("a", 2), *b = copyind(a, 2); bool ok = a->size() == b->size(); vs_assert(ok, "a copy has the parameters of its source");
  for (std::size_t i = 0; i < a->size(); ++i) {
    GParameterBase *p = a->at(i).get(), *q = b->at(i).get(); vs_assert(p != q && typeid(*p) == typeid(*q), "a copy has parameters of its own, with the types of its source");
    if (typeid(*p) == typeid(GInt32Object)) vs_assert(static_cast<GInt32Object *>(p)->value() == static_cast<GInt32Object *>(q)->value(), "a copy has the values of its source"); else vs_assert(same(static_cast<GDoubleObject *>(p)->value(), static_cast<GDoubleObject *>(q)->value()), "a copy has the values of its source");
  }
}
// ------------------------------------------------------------------ algorithms
#define BASE_MEMBERS(X) X(m_iteration) X(m_offset) X(m_minIteration) X(m_maxIteration) X(m_maxStallIteration) X(m_reportIteration) X(m_nRecordbestGlobalIndividuals) X(m_defaultPopulationSize) X(m_bestKnownPrimaryFitness) X(m_bestCurrentPrimaryFitness) \
  X(m_stallCounter) X(m_stallCounterThreshold) X(m_cp_interval) X(m_cp_base_name) X(m_cp_last) X(m_cp_remove) X(m_cp_serialization_mode) X(m_qualityThreshold) X(m_hasQualityThreshold) X(m_maxDuration) X(m_minDuration) X(m_terminationFile) \
  X(m_terminateOnFileModification) X(m_emitTerminationReason) X(m_worstKnownValids_cnt) X(m_default_execMode)
#define PARCHILD_MEMBERS(X) BASE_MEMBERS(X) X(m_n_parents) X(m_recombination_method) X(m_default_n_children) X(m_growth_rate) X(m_max_population_size) X(m_amalgamationLikelihood) X(m_n_threads)
#define EA_MEMBERS(X) PARCHILD_MEMBERS(X) X(m_sorting_mode)
#define SA_MEMBERS(X) PARCHILD_MEMBERS(X) X(m_t0) X(m_t) X(m_alpha)
#define GD_MEMBERS(X) BASE_MEMBERS(X) X(nStartingPoints_) X(nFPParmsFirst_) X(finiteStep_) X(stepSize_)
#define PS_SCAN_MEMBERS(X) BASE_MEMBERS(X) X(m_cycleLogicHalt) X(m_scanRandomly) X(m_nMonitorInds) X(m_simpleScanItems) X(m_scansPerformed)
#define SW_MEMBERS(X) BASE_MEMBERS(X) X(m_c_personal) X(m_c_neighborhood) X(m_c_global) X(m_c_velocity) X(m_update_rule) X(m_random_fill_up) X(m_repulsion_threshold) X(m_dbl_lower_parameter_boundaries_cnt) X(m_dbl_upper_parameter_boundaries_cnt) X(m_dbl_vel_max_cnt) X(m_velocity_range_percentage)
template <class A> static VS_NOINLINE A *copyalg(const A *a, A *(*other)()) {
  switch (vs_choice("how", 3)) { case 0: return new A(*a); case 1: return static_cast<A *>(static_cast<const GObject *>(a)->clone_()); default: { A *b = other(); b->GObject::load(static_cast<const GObject &>(*a)); return b; } }
}
struct OM : GBasePluggableOM {
  int id = 0;
  GObject *clone_() const override { return new OM(*this); } std::string name_() const override { return "OM"; }
  void load_(const GObject *o) override { GBasePluggableOM::load_(o); id = static_cast<const OM *>(o)->id; }
  void informationFunction_(infoMode, G_OptimizationAlgorithm_Base const *const) override {}
};
template <class A> static VS_NOINLINE void parts(A *a) { // containers and objects an algorithm owns
  for (std::size_t i = 0, n = vs_choice("pop", 3); i < n; ++i) { auto p = std::make_shared<Ind>(); p->tag = vs_i32("tag"); a->push_back(p); }
  if (vs_choice("executor", 2)) { auto x = std::make_shared<Exec>(); x->submitted = vs_i32("submitted"); a->m_executor_ptr = x; }
  a->m_halted.store(vs_choice("halted", 2)); if (!vs_is_symbolic()) a->m_cp_directory_path = "/tmp/elsewhere";
  if (vs_choice("best", 2)) { double f = fin("best"); a->m_bestGlobalIndividuals_pq.m_data_deq.push_back(processed(f, f, maxMode::MINIMIZE, 1)); a->m_bestIterationIndividuals_pq.m_data_deq.push_back(processed(f, f, maxMode::MINIMIZE, 2)); a->m_bestGlobalIndividuals_pq.m_maxSize = 7; }
  if (vs_choice("monitor", 2)) { auto m = std::make_shared<OM>(); m->id = vs_i32("id"); m->m_useRawEvaluation = vs_choice("raw", 2); a->m_pluggable_monitors_cnt.push_back(m); }
}
template <class Q> static void queue_same(const Q &a, const Q &b) {
  vs_assert(a.m_data_deq.size() == b.m_data_deq.size() && a.m_maxSize == b.m_maxSize, "a copied algorithm has the best individuals of its source"); for (std::size_t i = 0; i < a.m_data_deq.size(); ++i) { Ind *p = ind(a.m_data_deq[i]), *q = ind(b.m_data_deq[i]); vs_assert(p != q && p->tag == q->tag && p->raw_fitness(0) == q->raw_fitness(0), "a copied algorithm has best individuals of its own, equal to those of its source"); }
}
template <class A> static VS_NOINLINE void parts_same(const A *a, const A *b) {
  vs_assert(a->size() == b->size(), "a copied algorithm has the individuals of its source"); for (std::size_t i = 0; i < a->size(); ++i) vs_assert(ind(a->at(i)) != ind(b->at(i)) && ind(a->at(i))->tag == ind(b->at(i))->tag, "a copied algorithm has individuals of its own, equal to those of its source");
  vs_assert((!a->m_executor_ptr) == (!b->m_executor_ptr), "a copied algorithm has an executor exactly if its source has"); if (a->m_executor_ptr) { auto *x = a->m_executor_ptr.get(), *y = b->m_executor_ptr.get(); vs_assert(x != y && typeid(*x) == typeid(*y), "a copied algorithm has an executor of its own"); }
  vs_assert(a->m_halted.load() == b->m_halted.load(), "a copied algorithm is halted exactly if its source is");
  if (!vs_is_symbolic()) vs_assert(a->m_cp_directory_path == b->m_cp_directory_path, "a copied algorithm has the checkpoint directory of its source");
  queue_same(a->m_bestGlobalIndividuals_pq, b->m_bestGlobalIndividuals_pq); queue_same(a->m_bestIterationIndividuals_pq, b->m_bestIterationIndividuals_pq);
  vs_assert(a->m_pluggable_monitors_cnt.size() == b->m_pluggable_monitors_cnt.size(), "a copied algorithm has the monitors of its source");
  for (std::size_t i = 0; i < a->m_pluggable_monitors_cnt.size(); ++i) { OM *p = static_cast<OM *>(a->m_pluggable_monitors_cnt[i].get()), *q = static_cast<OM *>(b->m_pluggable_monitors_cnt[i].get()); vs_assert(p != q && p->id == q->id && p->m_useRawEvaluation == q->m_useRawEvaluation, "a copied algorithm has monitors of its own, equal to those of its source"); }
}
template <class A> static A *other() { A *b = new A; if (vs_choice("nonempty", 2)) { auto p = std::make_shared<Ind>(); p->m_pt_ptr.reset(mktraits(T_EA)); b->push_back(p); } return b; }
#define ANY(m) any(a->m);
#define SAME(m) vs_assert(same(a->m, b->m), "a copied algorithm has the same " #m);
#define MEMBERS_CONTRACT(A, MEMBERS, FIX) { A *a = new A; MEMBERS(ANY) FIX(a) A *b = copyalg<A>(a, other<A>); MEMBERS(SAME) }
#define PARTS_CONTRACT(A) { A *a = new A; parts(a); A *b = copyalg<A>(a, other<A>); parts_same(a, b); }
#define NOFIX(a)
// between initialisation and the first iteration the swarm has no global best, and its population has the nominal size
#define SWFIX(a) a->m_iteration = a->m_offset; a->m_defaultPopulationSize = a->m_n_neighborhoods * a->m_default_n_neighborhood_members;
VS_ENTRY(ea_members) MEMBERS_CONTRACT(GEvolutionaryAlgorithm, EA_MEMBERS, NOFIX)
VS_ENTRY(sa_members) MEMBERS_CONTRACT(GSimulatedAnnealing, SA_MEMBERS, NOFIX)
VS_ENTRY(gd_members) MEMBERS_CONTRACT(GGradientDescent, GD_MEMBERS, NOFIX)
VS_ENTRY(scan_members) MEMBERS_CONTRACT(GParameterScan, PS_SCAN_MEMBERS, NOFIX)
VS_ENTRY(swarm_members) MEMBERS_CONTRACT(GSwarmAlgorithm, SW_MEMBERS, SWFIX)
VS_ENTRY(ea_parts) PARTS_CONTRACT(GEvolutionaryAlgorithm)
VS_ENTRY(sa_parts) PARTS_CONTRACT(GSimulatedAnnealing)
VS_ENTRY(gd_parts) PARTS_CONTRACT(GGradientDescent)
VS_ENTRY(gd_ratio) { GGradientDescent *a = new GGradientDescent; a->stepRatio_ = vs_choice("r", 2) ? 2.5L : 0.25L; GGradientDescent *b = copyalg<GGradientDescent>(a, other<GGradientDescent>); vs_assert(b->stepRatio_ == a->stepRatio_, "a copied gradient descent has the same step ratio"); }
VS_ENTRY(scan_parts) PARTS_CONTRACT(GParameterScan)
VS_ENTRY(swarm_parts) PARTS_CONTRACT(GSwarmAlgorithm)
// ------------------------------------------------------------------ factories
struct Fac : GParameterSetFactory {
  explicit Fac(const std::filesystem::path &p) : GParameterSetFactory(p) {} Fac(const Fac &) = default;
  std::shared_ptr<GParameterSet> getObject_(Gem::Common::GParserBuilder &, const std::size_t &) override { return std::make_shared<Ind>(); }
  void postProcess_(std::shared_ptr<GParameterSet> &) override {}
};
VS_ENTRY(factory) {
  Fac *a = new Fac("a.json"); bool p = vs_choice("pre", 2), q = vs_choice("post", 2); int i = vs_i32("pre id"), j = vs_i32("post id"); if (p) a->registerPreProcessor(std::make_shared<Proc>(i)); if (q) a->registerPostProcessor(std::make_shared<Proc>(j)); a->m_id = vs_u64("id"); a->m_initialized = vs_choice("init", 2);
  Fac *b = new Fac(*a); Proc *x = static_cast<Proc *>(b->m_preProcessor.get()), *y = static_cast<Proc *>(b->m_postProcessor.get());
  vs_assert(b->m_id == a->m_id && b->m_initialized == a->m_initialized && (vs_is_symbolic() || b->m_config_path == a->m_config_path), "a copied factory has the configuration file and the id of its source");
  vs_assert((x != nullptr) == p && (y != nullptr) == q, "a copied factory has the processors of its source"); if (p) vs_assert(x != a->m_preProcessor.get() && x->id == i, "a copied factory has an equal pre-processor of its own"); if (q) vs_assert(y != a->m_postProcessor.get() && y->id == j, "a copied factory has an equal post-processor of its own");
}
