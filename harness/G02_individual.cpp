// Contracts of individuals: evaluation policies, constraints, validity, adaption bookkeeping, comparison helpers.
// vs: model ^Gem::Common::gsigmoid\(double const& => vs_model_sig
// vs: bound up to 2 fitness criteria, up to 3 combined constraints
// vs: entry order complete=1
// vs: entry single_check complete=1
#include "geneva/GMultiConstraintT.hpp"
#include "ind.hpp"
extern "C" double vs_model_sig(const double &v, const double &b, const double &s) { return b == 2. && s == 3. ? -v : 0.; }
static double sig(double v, double b, double s) { return vs_is_symbolic() ? -v : Gem::Common::gsigmoid(v, b, s); }
using Check = GPreEvaluationValidityCheckT<GParameterSet>;
struct C : Check {
  double level = 0; const GParameterSet *seen = nullptr; static int calls;
  C() = default; explicit C(double l) : level(l) {}
  C(const C &) = default;
  GObject *clone_() const override { return new C(*this); }
  void load_(const GObject *o) override { Check::load_(o); level = static_cast<const C *>(o)->level; }
  double check_(const GParameterSet *) const override { ++calls; return level; }
};
int C::calls = 0;
static const double MAXD = 1.7976931348623157e308;
static const double LV[5] = {0.5, 1.5, 2.5, 1e200, MAXD};
static VS_NOINLINE processingStatus status3(std::uint64_t k) { return k == 0 ? processingStatus::DO_PROCESS : k == 1 ? processingStatus::PROCESSED : processingStatus::EXCEPTION_CAUGHT; }
static VS_NOINLINE evaluationPolicy policy(std::uint64_t k) { return k == 0 ? evaluationPolicy::USESIMPLEEVALUATION : k == 1 ? evaluationPolicy::USESIGMOID : evaluationPolicy::USEWORSTCASEFORINVALID; }
VS_ENTRY(evaluate) {
  int outcome = int(vs_choice("outcome", 3)); std::size_t n = outcome ? 1 : 2; maxMode m = mode(outcome ? 0 : vs_choice("mode", 2)); evaluationPolicy p = policy(vs_choice("policy", 3)); bool hasc = outcome || vs_choice("constraint", 2);
  Ind *i = new Ind(n); i->setMaxMode(m); i->setEvaluationPolicy(p); i->setBarrier(2.); i->setSteepness(3.);
  double level = 0; if (hasc) { if (p == evaluationPolicy::USESIGMOID && vs_is_symbolic()) level = LV[vs_choice("lv", 5)]; else { level = vs_f64("level"); vs_assume((level >= 0) & (level <= MAXD)); } i->registerConstraint(std::make_shared<C>(level)); }
  bool valid = !hasc | (level <= 1); i->fit = fin("fit"); i->fit2 = fin("fit2"); i->outcome = outcome; i->mark_as_due_for_processing(); g_evals = 0;
  bool t = vs_throws([&] { i->process(); });
  bool run = valid | (p == evaluationPolicy::USESIMPLEEVALUATION);
  vs_assert(g_evals == int(run), "the fitness function is evaluated exactly once, unless an invalid individual does not need it");
  vs_assert(i->getValidityLevel() == (valid ? 0. : level) && i->constraintsFulfilled() == valid, "the validity level is recorded");
  if (run & (i->outcome != 0)) { vs_assert(t && i->has_errors(), "errors of the fitness function are recorded and reported"); vs_assert(vs_throws([&] { i->raw_fitness(0); }) && vs_throws([&] { i->isValid(); }), "no fitness is available after an error"); }
  else {
    vs_assert(!t && i->is_processed(), "the individual is processed"); vs_assert(i->isValid() == valid && i->isInValid() == !valid, "validity is available after processing");
    double worst = m == maxMode::MAXIMIZE ? -MAXD : MAXD; vs_assert(i->getWorstCase() == worst && i->getBestCase() == -worst, "worst and best case follow the optimisation mode");
    for (std::size_t k = 0; k < n; ++k) {
      double f = k ? i->fit2 : i->fit, r = i->raw_fitness(k), tr = i->transformed_fitness(k);
      if (run) { vs_assert(r == f, "the raw fitness is what the fitness function returned"); vs_assert(tr == (p == evaluationPolicy::USESIGMOID ? sig(f, 2., 3.) : f), "the transformed fitness follows the evaluation policy"); }
      else { vs_assert(r == worst, "the raw fitness of an unevaluated invalid individual is the worst case");
        double u = level >= MAXD ? worst : m == maxMode::MAXIMIZE ? -level * 2. : level * 2.; vs_assert(tr == (p == evaluationPolicy::USESIGMOID ? u : worst), "invalid individuals get the worst case or a fitness beyond the barrier that grows with the violation"); }
      vs_assert(std::get<0>(i->getFitnessTuple(k)) == r && std::get<1>(i->getFitnessTuple(k)) == tr && i->raw_fitness_vec()[k] == r && i->transformed_fitness_vec()[k] == tr, "all accessors agree on the fitness");
    }
  }
}
VS_ENTRY(set_fitness) { // evaluated elsewhere: the fitness is handed over
  std::size_t n = 1 + vs_choice("n", 2), k = 1 + vs_choice("k", 2); maxMode m = mode(vs_choice("mode", 2)); evaluationPolicy p = policy(vs_choice("policy", 3)); bool hasc = vs_choice("constraint", 2);
  Ind *i = new Ind(n); i->setMaxMode(m); i->setEvaluationPolicy(p); i->setBarrier(2.); i->setSteepness(3.); double level = 0; if (hasc) { level = LV[vs_choice("lv", 5)]; i->registerConstraint(std::make_shared<C>(level)); } bool valid = level <= 1;
  i->m_processing_status = status3(vs_choice("status", 3)); i->m_stored_error_descriptions = i->has_errors() ? "old" : ""; double f[2] = {fin("fit"), fin("fit2")}; std::vector<double> v(f, f + k); g_evals = 0; bool t = vs_throws([&] { i->setFitness_(v); }); vs_assert(t == (k != n), "a fitness value is needed for each criterion"); if (t) return;
  vs_assert(g_evals == 0 && i->is_processed() && !i->has_errors(), "an individual whose fitness was set is processed"); vs_assert(i->getValidityLevel() == (valid ? 0. : level), "the validity level is recorded"); double worst = m == maxMode::MAXIMIZE ? -MAXD : MAXD; bool run = valid | (p == evaluationPolicy::USESIMPLEEVALUATION);
  for (std::size_t c = 0; c < n; ++c) { double r = i->m_stored_results_cnt[c].rawFitness(), tr = i->m_stored_results_cnt[c].transformedFitness(); vs_assert(r == (run ? f[c] : worst), "the raw fitness is the one handed over, or the worst case for invalid individuals"); if (run) vs_assert(tr == (p == evaluationPolicy::USESIGMOID ? sig(f[c], 2., 3.) : f[c]), "the transformed fitness follows the evaluation policy"); else { double u = level >= MAXD ? worst : m == maxMode::MAXIMIZE ? -level * 2. : level * 2.; vs_assert(tr == (p == evaluationPolicy::USESIGMOID ? u : worst), "invalid individuals get the worst case or a fitness beyond the barrier that grows with the violation"); } }
}
VS_ENTRY(sigmoid_order) { // native only: invalid individuals are worse than all valid ones under the sigmoid policy
  maxMode m = mode(vs_choice("mode", 2)); double f = vs_f64("fit"), l = vs_f64("level"), l2 = vs_f64("level2"); vs_assume((f > -1e300) & (f < 1e300) & (l > 1) & (l < 1e10) & (l2 > l * 1.0001) & (l2 < 1e10));
  Ind v, w, x; for (Ind *i : {&v, &w, &x}) { i->setMaxMode(m); i->setEvaluationPolicy(evaluationPolicy::USESIGMOID); i->mark_as_due_for_processing(); } v.fit = f; w.registerConstraint(std::make_shared<C>(l)); x.registerConstraint(std::make_shared<C>(l2)); v.process(); w.process(); x.process();
  vs_assert(better(v.transformed_fitness(0), w.transformed_fitness(0), m), "every valid individual is better than every invalid one"); vs_assert(better(w.transformed_fitness(0), x.transformed_fitness(0), m), "less invalid individuals are better");
}
// vs: entry sigmoid_order sym=0
VS_ENTRY(single_check) {
  C c(vs_f64("raw")); bool neg = vs_choice("neg", 2); c.setAllowNegative(neg); double x = c.level; vs_assume((x >= -MAXD) & (x <= MAXD)); double lv = -5; bool v = c.isValid(nullptr, lv);
  bool ok = neg ? x <= 1 : (x >= 0) & (x <= 1);
  vs_assert(v == (ok & true), "a constraint is fulfilled exactly if its value lies in the allowed range");
  vs_assert(ok ? lv == 0 : (lv > 1) & (x < 0 ? lv >= 1 - x : lv == x), "the validity level of fulfilled constraints is 0, that of violated ones is above 1 and grows with the violation"); double l2; vs_assert(c.isInvalid(nullptr, l2) != v && l2 == lv, "isInvalid is the opposite of isValid");
}
VS_ENTRY(combiner) {
  std::size_t n = vs_choice("n", 3); static const char *nm[3] = {"a", "b", "c"}; std::vector<std::shared_ptr<Check>> cs; double l[3]; bool multiply = vs_choice("multiply", 2);
  for (std::size_t i = 0; i < n; ++i) { if (multiply) l[i] = LV[vs_choice(nm[i], 5)]; else { l[i] = vs_f64(nm[i]); vs_assume((l[i] >= 0) & (l[i] <= MAXD)); } cs.push_back(std::make_shared<C>(l[i])); }
  GCheckCombinerT<GParameterSet> k(cs); k.setCombinerPolicy(multiply ? validityCheckCombinerPolicy::MULTIPLYINVALID : validityCheckCombinerPolicy::ADDINVALID);
  GCheckCombinerT<GParameterSet> k2; GCheckCombinerT<GParameterSet> k3(k); GCheckCombinerT<GParameterSet> *u = &k; std::uint64_t how = multiply ? vs_choice("copy", 3) : 2; if (how == 1) { k2.GObject::load(static_cast<const GObject &>(k)); u = &k2; } else if (how == 2) u = &k3;
  bool ok = true, huge = false; double r = multiply ? 1. : 0.; for (std::size_t i = 0; i < n; ++i) { bool bad = l[i] > 1; ok = ok & !bad; huge = huge | (l[i] == MAXD); if (bad) r = multiply ? r * l[i] : r + l[i]; }
  double lv; bool v = u->isValid(nullptr, lv);
  if (ok) vs_assert(v & (lv == 0), "combined constraints are fulfilled if all of them are"); 
  else { vs_assert(vs_same(lv, huge ? MAXD : r), "the levels of violated constraints are multiplied or added as requested"); if (!vs_is_symbolic()) vs_assert(!v, "combined constraints are violated if one of them is"); else vs_assert(v == (lv <= 1), "validity follows from the combined level"); }
  vs_assert(u->validityChecks_.size() == n, "copies keep all constraints"); for (std::size_t i = 0; i < n; ++i) vs_assert(u->validityChecks_[i].get() != cs[i].get(), "constraints are copied");
}
// -- adaption
struct AInd : GParameterSet {
  int n[6], k = 0, lim = 0; 
  AInd() = default; AInd(const AInd &) = default;
  GObject *clone_() const override { return new AInd(*this); }
  double fitnessCalculation() override { return 0; }
  std::size_t customAdaptions() override { if (k >= lim) vs_block(); return std::size_t(n[k++]); }
};
struct SC : Check { // constraint with a script
  mutable int k = 0; bool ok[4]; SC *org = nullptr;
  SC() = default; SC(const SC &) = default;
  GObject *clone_() const override { return new SC(*this); }
  double check_(const GParameterSet *) const override { return ok[k++] ? 0. : 2.; }
};
VS_ENTRY(adapt) {
  AInd *a = new AInd; static const char *nm[6] = {"n0", "n1", "n2", "n3", "n4", "n5"}, *cn[4] = {"c0", "c1", "c2", "c3"}; a->lim = 6; for (int i = 0; i < 6; ++i) { a->n[i] = int(vs_u32(nm[i])); vs_assume((a->n[i] >= 0) & (a->n[i] < 1000)); }
  bool con = vs_choice("con", 2); if (con) { auto c = std::make_shared<SC>(); for (int i = 0; i < 4; ++i) c->ok[i] = vs_bool(cn[i]); a->registerConstraint(c); }
  std::size_t mu = vs_choice("max_unsuccessful", 3), mr = vs_choice("max_retries", 3); a->setMaxUnsuccessfulAdaptions(mu); a->setMaxRetriesUntilValid(mr); 
  a->m_processing_status = vs_choice("processed", 2) ? processingStatus::PROCESSED : processingStatus::DO_PROCESS; processingStatus s0 = a->getProcessingStatus();
  std::size_t r = a->adapt();
  bool changed = false; for (int i = 0; i < a->k; ++i) changed = changed | (a->n[i] > 0);
  vs_assert(r == std::size_t(a->n[a->k - 1]) && a->getNAdaptions() == r, "the number of adaptions of the last attempt is reported and recorded");
  if (changed) vs_assert(a->is_due_for_processing(), "an individual whose parameters were adapted is due for processing"); else vs_assert(a->getProcessingStatus() == s0, "an individual that was not adapted keeps its status");
  if (!con) { for (int i = 0; i + 1 < a->k; ++i) vs_assert(a->n[i] == 0, "adaption stops after the first success"); if (mu) vs_assert(std::size_t(a->k) <= mu + 1, "adaption stops after the allowed number of unsuccessful attempts"); if (!mu) vs_assert(r > 0, "without a limit adaption goes on until it succeeds"); }
  else { auto *c = static_cast<SC *>(a->m_individual_constraint_ptr.get()); vs_assert(std::size_t(c->k) <= mr + 1 && (c->ok[c->k - 1] || std::size_t(c->k) == mr + 1), "adaption is repeated until the constraints are fulfilled or the retries are used up"); for (int i = 0; i + 1 < c->k; ++i) vs_assert(!c->ok[i], "adaption stops at the first valid individual"); }
}
VS_ENTRY(order) {
  maxMode m = mode(vs_choice("mode", 2)); double a = vs_f64("a"), b = vs_f64("b"); vs_assume((a >= -MAXD) & (a <= MAXD) & (b >= -MAXD) & (b <= MAXD)); IP x = processed(0, a, m, 0), y = processed(0, b, m, 1);
  double ma = minOnly_transformed_fitness(x), mb = minOnly_transformed_fitness(y);
  vs_assert(ma == (m == maxMode::MAXIMIZE ? -a : a), "the minimisation fitness mirrors the transformed fitness for maximisation");
  vs_assert(isBetter(x, y) == better(a, b, m) && isBetter(a, b, m) == better(a, b, m), "better means higher for maximisation and lower for minimisation");
  vs_assert(isWorse(x, y) == !better(a, b, m) && isWorse(a, b, m) == !better(a, b, m), "worse is the opposite of better"); vs_assert((ma < mb) == better(a, b, m), "the minimisation fitness orders individuals");
  IP z = processed(0, b, m == maxMode::MAXIMIZE ? maxMode::MINIMIZE : maxMode::MAXIMIZE, 2); vs_assert(vs_throws([&] { isBetter(x, z); }), "individuals of different modes are not compared");
}
static VS_NOINLINE processingStatus status(std::uint64_t k) { switch (k) { case 0: return processingStatus::DO_IGNORE; case 1: return processingStatus::DO_PROCESS; case 2: return processingStatus::PROCESSED; case 3: return processingStatus::EXCEPTION_CAUGHT; default: return processingStatus::ERROR_FLAGGED; } }
VS_ENTRY(processing_range) {
  std::vector<IP> v; processingStatus s[3]; static const char *nm[3] = {"s0", "s1", "s2"}; std::size_t n = vs_choice("n", 4); for (std::size_t i = 0; i < n; ++i) { s[i] = status(vs_choice(nm[i], 3)); auto p = std::make_shared<Ind>(); p->m_processing_status = s[i]; v.push_back(p); }
  std::size_t a = vs_choice("a", 4), b = vs_choice("b", 4); vs_assume((a <= b) & (b <= n)); setProcessingFlag(v, std::make_tuple(a, b));
  for (std::size_t i = 0; i < n; ++i) { bool in = (i >= a) & (i < b); vs_assert(v[i]->getProcessingStatus() == (in ? processingStatus::DO_PROCESS : s[i] == processingStatus::PROCESSED ? s[i] : processingStatus::DO_IGNORE), "exactly the individuals in the range are due for processing, processed ones outside of it stay processed"); }
}
VS_ENTRY(good_enough) {
  maxMode m = mode(vs_choice("mode", 2)); Ind *i = new Ind(2); i->setMaxMode(m); i->m_processing_status = processingStatus::PROCESSED; double a = vs_f64("a"), b = vs_f64("b"), x = vs_f64("x"), y = vs_f64("y"); vs_assume((a == a) & (b == b) & (x == x) & (y == y)); i->m_stored_results_cnt[0] = parameterset_processing_result(a, 0); i->m_stored_results_cnt[1] = parameterset_processing_result(b, 0);
  vs_assert(i->isGoodEnough({x, y}) == (!better(x, a, m) & !better(y, b, m)), "an individual is good enough if no criterion misses its bound"); vs_assert(vs_throws([&] { i->isGoodEnough({x}); }), "each criterion needs a bound"); i->m_processing_status = processingStatus::DO_PROCESS; vs_assert(vs_throws([&] { i->isGoodEnough({x, y}); }), "only processed individuals can be judged");
}
VS_ENTRY(copies) {
  Ind *a = new Ind(2); a->setMaxMode(mode(vs_choice("mode", 2))); a->m_processing_status = status(vs_choice("status", 5)); a->m_stored_results_cnt[0] = parameterset_processing_result(fin("r0"), fin("t0")); a->m_stored_results_cnt[1] = parameterset_processing_result(fin("r1")); a->setBestKnownPrimaryFitness(std::make_tuple(fin("b0"), fin("b1"))); a->setNStalls(vs_u32("st")); a->setAssignedIteration(vs_u32("it")); a->m_validity_level = fin("val"); a->setEvaluationPolicy(policy(vs_choice("policy", 3)));
  double st = fin("steep"), ba = fin("barrier"); bool t1 = vs_throws([&] { a->setSteepness(st); }), t2 = vs_throws([&] { a->setBarrier(ba); }); vs_assert(t1 == (st <= 0) && t2 == (ba <= 0), "steepness and barrier must be positive"); if (!t1) vs_assert(a->getSteepness() == st, "the steepness is set"); if (!t2) vs_assert(a->getBarrier() == ba, "the barrier is set");
  a->setMaxUnsuccessfulAdaptions(vs_u32("mu")); a->setMaxRetriesUntilValid(vs_u32("mr")); a->m_n_adaptions = vs_u32("na"); a->setPersonality(std::make_shared<PT>()); double lv = fin("lv"); a->registerConstraint(std::make_shared<C>(lv)); a->m_evaluation_id = "id";
  std::shared_ptr<Ind> b; if (vs_choice("how", 2)) b = a->clone<Ind>(); else { b = std::make_shared<Ind>(1); b->GObject::load(static_cast<const GObject &>(*a)); }
  vs_assert(b->getMaxMode() == a->getMaxMode() && b->getProcessingStatus() == a->getProcessingStatus() && b->getNStoredResults() == 2, "copies keep mode, status and the number of results");
  vs_assert((b->m_stored_results_cnt[0].rawFitness() == a->m_stored_results_cnt[0].rawFitness()) & (b->m_stored_results_cnt[0].transformedFitness() == a->m_stored_results_cnt[0].transformedFitness()) & (b->m_stored_results_cnt[1].rawFitness() == a->m_stored_results_cnt[1].rawFitness()) & b->m_stored_results_cnt[0].transformedFitnessSet() & !b->m_stored_results_cnt[1].transformedFitnessSet(), "copies keep the results");
  vs_assert((std::get<0>(b->getBestKnownPrimaryFitness()) == std::get<0>(a->getBestKnownPrimaryFitness())) & (std::get<1>(b->getBestKnownPrimaryFitness()) == std::get<1>(a->getBestKnownPrimaryFitness())) & (b->getNStalls() == a->getNStalls()) & (b->getAssignedIteration() == a->getAssignedIteration()), "copies keep the bookkeeping of the run");
  vs_assert((b->getValidityLevel() == a->getValidityLevel()) & (b->getEvaluationPolicy() == a->getEvaluationPolicy()) & (b->getSteepness() == a->getSteepness()) & (b->getBarrier() == a->getBarrier()) & (b->getMaxUnsuccessfulAdaptions() == a->getMaxUnsuccessfulAdaptions()) & (b->getMaxRetriesUntilValid() == a->getMaxRetriesUntilValid()) & (b->getNAdaptions() == a->getNAdaptions()), "copies keep validity, evaluation and adaption settings");
  vs_assert(b->m_pt_ptr && b->m_pt_ptr != a->m_pt_ptr && b->m_individual_constraint_ptr && b->m_individual_constraint_ptr != a->m_individual_constraint_ptr && static_cast<C *>(b->m_individual_constraint_ptr.get())->level == lv && b->getCurrentEvaluationID() == "id", "copies are deep");
}
VS_ENTRY(changes) {
  Ind *a = new Ind, *b = new Ind; a->m_processing_status = status(vs_choice("status", 3)); b->m_processing_status = processingStatus::PROCESSED; a->swap(*b); vs_assert(a->is_due_for_processing() && b->is_due_for_processing(), "individuals that swap parameters are due for processing");
  Ind *d = new Ind(2), *e = new Ind(2); double r = fin("r"), q = fin("q"); processingStatus s = status(vs_choice("other", 5)); e->m_processing_status = s; e->m_stored_results_cnt[0] = parameterset_processing_result(r, r); e->m_stored_results_cnt[1] = parameterset_processing_result(q, q); d->setEvaluationPolicy(policy(vs_choice("policy", 3))); d->m_processing_status = status(vs_choice("status2", 3)); bool t = vs_throws([&] { d->cannibalize(*e); });
  if ((s == processingStatus::DO_PROCESS) | (s == processingStatus::EXCEPTION_CAUGHT) | (s == processingStatus::ERROR_FLAGGED)) vs_assert(t, "unprocessed individuals are not cannibalised"); else if (s == processingStatus::PROCESSED) vs_assert(!t && d->is_processed() && (d->raw_fitness(0) == r) & (d->raw_fitness(1) == q), "cannibalising takes over the fitness");
  vs_assert(vs_throws([&] { a->registerConstraint(std::shared_ptr<Check>()); }) && vs_throws([&] { a->setPersonality(std::shared_ptr<GPersonalityTraits>()); }), "empty constraints and personalities are refused");
  vs_assert(a->getPersonality() == "PERSONALITY_NONE" && vs_throws([&] { a->getPersonalityTraits(); }) && vs_throws([&] { a->getMnemonic(); }), "an individual outside of an optimisation has no personality"); a->setPersonality(std::make_shared<PT>()); vs_assert(a->getPersonality() == "PT" && a->getMnemonic() == "pt", "the personality is handed out"); a->resetPersonality(); vs_assert(a->getPersonality() == "PERSONALITY_NONE", "the personality can be removed");
}
