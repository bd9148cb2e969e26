// Contracts of the evolutionary algorithm: recombination, adaption, evaluation, repair of the population, selection.
// vs: link src/geneva/G_OptimizationAlgorithm_ParChild.cpp src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp src/geneva/G_OptimizationAlgorithm_ParChildT_PersonalityTraits.cpp src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm_PersonalityTraits.cpp
// vs: bound populations of up to 5 individuals with up to 3 parents (native runs: up to 20 individuals)
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm_PersonalityTraits.hpp"
using Alg = Gem::Geneva::GEvolutionaryAlgorithm; using Tr = Gem::Geneva::GEvolutionaryAlgorithm_PersonalityTraits;
#include "parchild.hpp"
static VS_NOINLINE sortingMode smode(std::uint64_t k) { switch (k) { case 0: return sortingMode::MUPLUSNU_SINGLEEVAL; case 1: return sortingMode::MUCOMMANU_SINGLEEVAL; case 2: return sortingMode::MUNU1PRETAIN_SINGLEEVAL; case 3: return sortingMode::MUPLUSNU_PARETO; default: return sortingMode::MUCOMMANU_PARETO; } }
static void select_(std::size_t np, std::size_t nc, std::size_t extra, unsigned md, bool first, maxMode m, double *f, std::size_t n) {
  Alg *a = make(np, nc, first); a->setSortingScheme(smode(md)); std::vector<IP> org; for (std::size_t i = 0; i < n; ++i) { IP p = member(int(i), f[i], m, i < np); org.push_back(p); a->push_back(p); }
  if (md == 2 && np > 1 && !first) for (std::size_t i = 1; i < np; ++i) vs_assume(!better(f[i], f[0], m));
  std::size_t lo = first | (md == 0) | ((md == 2) & (np == 1)) ? 0 : np; bool keep = false;
  if ((md == 2) & (np > 1) & !first) { keep = true; for (std::size_t i = np; i < n; ++i) keep = keep & !better(f[i], f[0], m); }
  a->selectBest_();
  vs_assert(a->size() == np + nc, "selection restores the nominal population size");
  unsigned used = 0; for (auto &p : *a) { int t = ind(p)->tag; vs_assert(org[std::size_t(t)].get() == p.get() && !(used >> t & 1), "selection rearranges the individuals and neither copies nor duplicates them"); used |= 1u << t; }
  unsigned par = 0; for (std::size_t i = 0; i < np; ++i) { int t = ind(a->at(i))->tag; par |= 1u << t; vs_assert((std::size_t(t) >= lo) | ((t == 0) & keep), "new parents come from the individuals that take part in the selection"); vs_assert(traits(a->at(i))->isParent(), "parents know that they are parents"); if (i) vs_assert(!better(f[t], f[ind(a->at(i - 1))->tag], m), "parents are sorted, best first"); }
  if (keep) vs_assert(ind(a->at(0))->tag == 0, "the best parent is kept unless a better child is found");
  double w = f[ind(a->at(np - 1))->tag]; bool ok = true; for (std::size_t i = lo; i < n; ++i) if (!(par >> i & 1)) ok = ok & !better(f[i], w, m);
  if (!(keep & (np == 1))) vs_assert(ok, "no individual that took part in the selection is better than a parent selected");
}
VS_ENTRY(select) {
  unsigned md = unsigned(vs_choice("scheme", 3)); bool first = vs_choice("first", 2); maxMode m = mode(vs_choice("mode", 2)); std::size_t np = 1 + vs_choice("np", 2), nc = 2, extra = vs_choice("extra", 2) & (np == 1), n = np + nc + extra; double f[5]; for (std::size_t i = 0; i < n; ++i) f[i] = fin(FN[i]);
  select_(np, nc, extra, md, first, m, f, n);
}
VS_ENTRY(select_big) { // native only: sorting algorithms behave differently for more than 16 elements
  unsigned md = unsigned(vs_choice("scheme", 3)); bool first = vs_choice("first", 2); maxMode m = mode(vs_choice("mode", 2)); std::size_t np = 1 + vs_choice("np", 6), nc = 12 + vs_choice("nc", 8), n = np + nc + vs_choice("extra", 3); double f[32]; for (std::size_t i = 0; i < n; ++i) f[i] = fin("f"); std::size_t b = 0; for (std::size_t i = 1; i < np; ++i) if (better(f[i], f[b], m)) b = i; std::swap(f[0], f[b]); select_(np, nc, n - np - nc, md, first, m, f, n);
}
// vs: entry select_big sym=0
static void pareto_(std::size_t np, std::size_t nc, bool comma, bool first, maxMode m, double *f, double *g) {
  Alg *a = make(np, nc, first); std::size_t n = np + nc; a->setSortingScheme(smode(comma ? 4 : 3)); std::vector<IP> org; for (std::size_t i = 0; i < n; ++i) { IP p = member(int(i), f[i], m, i < np, 2, g[i]); traits(p)->m_isOnParetoFront = true; org.push_back(p); a->push_back(p); }
  std::size_t lo = comma & !first ? np : 0;
  a->selectBest_();
  vs_assert(a->size() == n, "selection restores the nominal population size"); unsigned par = 0, all = 0; for (std::size_t i = 0; i < n; ++i) { int t = ind(a->at(i))->tag; all |= 1u << t; if (i < np) par |= 1u << t; vs_assert(org[std::size_t(t)].get() == a->at(i).get(), "individuals are rearranged only"); } vs_assert(all == (1u << n) - 1, "no individual is lost or duplicated");
  unsigned front = 0, nf = 0; for (std::size_t i = 0; i < n; ++i) if (traits(org[i])->isOnParetoFront()) { front |= 1u << i; ++nf; }
  for (std::size_t i = 0; i < n; ++i) { bool dom = i < lo; for (std::size_t j = lo; j < n; ++j) if (j != i) dom = dom | (better(f[j], f[i], m) & better(g[j], g[i], m)); vs_assert(bool(front >> i & 1) == !dom, "the front consists of the individuals that no other one beats in every criterion"); }
  for (std::size_t i = 1; i < np; ++i) vs_assert(!better(f[ind(a->at(i))->tag], f[ind(a->at(i - 1))->tag], m), "parents are sorted by the main criterion");
  if (nf >= np) vs_assert((par & ~front) == 0, "parents come from the front if it is large enough"); else { vs_assert((front & ~par) == 0, "all members of a small front become parents"); bool ok = true; for (std::size_t i = 0; i < n; ++i) if (!((par | front) >> i & 1)) for (std::size_t j = 0; j < n; ++j) if ((par & ~front) >> j & 1) ok = ok & !better(f[i], f[j], m); vs_assert(ok, "the remaining parents are the best others according to the main criterion"); }
  std::vector<IP> q; a->extractCurrentParetoIndividuals(q); vs_assert(q.size() == nf, "exactly the individuals on the front are recorded");
}
VS_ENTRY(pareto) {
  bool comma = vs_choice("comma", 2), first = comma ? vs_choice("first", 2) : false; maxMode m = mode(vs_choice("mode", 2)); std::size_t np = 1 + vs_choice("np", 2), nc = comma && !first ? 2 : 3 - np; double f[5], g[5]; for (std::size_t i = 0; i < np + nc; ++i) { f[i] = fin(FN[i]); g[i] = fin(GN[i]); }
  pareto_(np, nc, comma, first, m, f, g);
}
VS_ENTRY(pareto_big) { bool comma = vs_choice("comma", 2), first = vs_choice("first", 2); maxMode m = mode(vs_choice("mode", 2)); std::size_t np = 1 + vs_choice("np", 4), nc = np + vs_choice("nc", 16); double f[32], g[32]; for (std::size_t i = 0; i < np + nc; ++i) { f[i] = fin("f"); g[i] = fin("g"); } pareto_(np, nc, comma, first, m, f, g); }
// vs: entry pareto_big sym=0
VS_ENTRY(pareto_records) {
  bool comma = vs_choice("comma", 2); Alg *a = make(1, 3, false); a->setSortingScheme(smode(comma ? 4 : 3)); a->setNRecordBestIndividuals(3); unsigned k = 0; static const char *pn[4] = {"p0", "p1", "p2", "p3"}; bool on[4]; for (int i = 0; i < 4; ++i) { IP p = member(i, double(i), maxMode::MINIMIZE, i < 1, 2, double(-i)); p->m_evaluation_id = ID[i]; on[i] = vs_choice(pn[i], 2); traits(p)->m_isOnParetoFront = on[i]; k += on[i]; a->push_back(p); }
  a->m_bestGlobalIndividuals_pq.m_data_deq.push_back(member(7, -100., maxMode::MINIMIZE, true, 2)); a->updateGlobalBestsPQ_(a->m_bestGlobalIndividuals_pq); a->m_bestIterationIndividuals_pq.m_data_deq.push_back(member(7, -100., maxMode::MINIMIZE, true, 2)); a->updateIterationBestsPQ_(a->m_bestIterationIndividuals_pq);
  if (k) { vs_assert(a->m_bestGlobalIndividuals_pq.size() == (k < 3 ? k : 3) && a->m_bestIterationIndividuals_pq.size() == k, "the records hold the current front"); for (auto &p : a->m_bestGlobalIndividuals_pq.m_data_deq) vs_assert(ind(p)->tag < 4 && on[ind(p)->tag] && p.get() != a->at(std::size_t(ind(p)->tag)).get(), "only individuals on the front are recorded, as copies"); for (auto &p : a->m_bestIterationIndividuals_pq.m_data_deq) vs_assert(ind(p)->tag < 4 && on[ind(p)->tag] && p.get() != a->at(std::size_t(ind(p)->tag)).get(), "the records of an iteration hold copies of its front only"); }
}
VS_ENTRY(recombine) {
  std::size_t np = 1 + vs_choice("np", 3), nc = 2; bool first = vs_choice("first", 2); Alg *a = make(np, nc, first); unsigned md = unsigned(vs_choice("method", 3)); a->setRecombinationMethod(md == 0 ? duplicationScheme::DEFAULTDUPLICATIONSCHEME : md == 1 ? duplicationScheme::RANDOMDUPLICATIONSCHEME : duplicationScheme::VALUEDUPLICATIONSCHEME); bool amal = vs_choice("amalgamation", 2); a->setAmalgamationLikelihood(amal ? 0.5 : 0.);
  std::vector<IP> org; for (std::size_t i = 0; i < np + nc; ++i) { IP p = member(int(i), double(i), maxMode::MINIMIZE, i < np); org.push_back(p); a->push_back(p); }
  a->recombine(); vs_assert(a->size() == np + nc, "recombination keeps the population size");
  for (std::size_t i = 0; i < np + nc; ++i) {
    IP p = a->at(i); vs_assert(p.get() == org[i].get() && traits(p)->getPopulationPosition() == i, "individuals stay in their position and know it");
    if (i < np) vs_assert(ind(p)->tag == int(i) && p->is_processed() && traits(p)->isParent(), "parents are left alone");
    else { int t = ind(p)->tag; vs_assert(!traits(p)->isParent(), "children know that they are children");
      if (t >= 100) vs_assert(amal && np > 1 && t < 110 && t > 100 && t < 100 + int(np), "amalgamation combines the best parent with another parent");
      else vs_assert(t >= 0 && t < int(np) && traits(p)->parentIdSet() && traits(p)->getParentId() == std::size_t(t) && ind(p)->fit == double(t), "each child is a copy of a parent, whose id it knows"); }
  }
}
VS_ENTRY(value_recombine) {
  std::size_t np = 2 + vs_choice("np", 2); Alg *a = make(np, 1, false); for (std::size_t i = 0; i < np + 1; ++i) a->push_back(member(int(i), double(i), maxMode::MINIMIZE, i < np));
  std::vector<double> th(np); double s = 0; for (std::size_t i = 0; i < np; ++i) s += 1. / (double(i) + 2.); for (std::size_t i = 0; i < np; ++i) { th[i] = 1. / (double(i) + 2.) / s; if (i) th[i] += th[i - 1]; } th[np - 1] = 1.;
  bool direct = vs_choice("direct", 2); double r = vs_f64("r"); vs_assume((r >= 0) & (r < 1)); 
  if (direct) { a->m_uniform_real_distribution = std::uniform_real_distribution<double>(0., 1.); IP c = a->at(np); a->valueRecombine(c, th); } else { a->setRecombinationMethod(duplicationScheme::VALUEDUPLICATIONSCHEME); a->setAmalgamationLikelihood(0.); a->doRecombine(); }
  int t = ind(a->at(np))->tag; vs_assert(t >= 0 && t < int(np) && g_last_real < th[std::size_t(t)] && (t == 0 || g_last_real >= th[std::size_t(t) - 1]), "better parents are chosen more often, as the value scheme requires");
}
struct PC : GEvolutionaryAlgorithm {
  int step = 0; std::size_t sz = 0; bool ok = true;
  void adaptChildren_() override { ok = ok && step == 0; step = 1; sz = size(); }
  void runFitnessCalculation_() override { ok = ok && step == 1; step = 2; }
  void selectBest_() override { ok = ok && step == 2; step = 3; }
};
VS_ENTRY(cycle) {
  std::size_t np = 1 + vs_choice("np", 2), nc = 1 + vs_choice("nc", 2), n = np + nc; bool first = vs_choice("first", 2); PC *a = new PC; a->setPopulationSizes(n, np); a->m_default_n_children = nc; a->m_offset = 5; a->m_iteration = first ? 5 : 6; std::size_t gr = vs_choice("growth", 3), mx = n + vs_choice("max", 3); a->setPopulationGrowth(gr, mx); double f = fin("f0"); for (std::size_t i = 0; i < n; ++i) a->push_back(member(int(i), i ? 1. : f, maxMode::MINIMIZE, i < np));
  auto r = a->cycleLogic_(); bool grow = !first & (gr != 0) & (n + gr <= mx); vs_assert(a->ok && a->step == 3, "a cycle adapts, evaluates and selects, in this order"); vs_assert((std::get<0>(r) == raw_of(f)) & (std::get<1>(r) == f), "the fitness of a cycle is that of its best individual");
  vs_assert(a->sz == (grow ? n + gr : n) && a->getDefaultPopulationSize() == a->sz && a->getNParents() == np, "the population grows by the requested number of children after the first iteration, never beyond its maximum");
  for (std::size_t i = 0; i < a->size(); ++i) vs_assert(a->at(i) && traits(a->at(i))->isParent() == (i < np), "individuals added are children"); for (std::size_t i = n; i < a->size(); ++i) for (std::size_t j = 0; j < i; ++j) vs_assert(a->at(i).get() != a->at(j).get(), "individuals added are copies");
}
VS_ENTRY(population) {
  std::size_t def = vs_choice("def", 5), np = vs_choice("np", 4), n = vs_choice("n", 4); Alg *a = new Alg; a->setPopulationSizes(def, np); bool hole = n && vs_choice("hole", 2); for (std::size_t i = 0; i < n; ++i) a->m_data_cnt.push_back(member(int(i), double(i), maxMode::MINIMIZE, false)); if (hole) a->m_data_cnt[n - 1].reset();
  bool t = vs_throws([&] { a->adjustPopulation_(); }); vs_assert(t == ((def == 0) | (n == 0) | hole), "populations without size, individuals or with empty slots are refused"); if (t) return;
  vs_assert(a->size() == (n < def ? def : n), "the population is filled up to its nominal size"); for (std::size_t i = 0; i < a->size(); ++i) { for (std::size_t j = 0; j < i; ++j) vs_assert(a->at(i).get() != a->at(j).get(), "each slot has its own individual"); vs_assert(eind(a->at(i))->inits == int(i >= n) && (i < n || ind(a->at(i))->tag == 0), "individuals added are copies with new random values, others are left alone"); }
  unsigned md = unsigned(vs_choice("scheme", 3)); a->setSortingScheme(smode(md)); std::size_t ps = a->size(); bool u = vs_throws([&] { a->populationSanityChecks_(); }); vs_assert(u == ((np == 0) | (md == 0 ? ps <= np : ps < 2 * np)), "populations too small for the selection scheme are refused");
  a->m_offset = 2; a->m_iteration = 2 + std::uint32_t(vs_choice("it", 2)); std::size_t e = ps < np ? ps : np; if (ps > e) { auto g = a->getEvaluationRange_(); vs_assert(std::get<0>(g) == (a->m_iteration == 2 ? 0 : e) && std::get<1>(g) == ps && a->getNProcessableItems() == ps - std::get<0>(g), "everything is evaluated in the first iteration, the children only later"); vs_assert(a->getNParents() == e && a->getNChildren() == ps - e, "numbers of parents and children"); }
  double al = vs_f64("al"); bool v = vs_throws([&] { a->setAmalgamationLikelihood(al); }); vs_assert(v == ((al < 0) | (al > 1)) && (v || vs_same(a->getAmalgamationLikelihood(), al)), "likelihoods outside of [0,1] are refused");
}
