// Contracts of simulated annealing: acceptance of children, cooling, evaluation and repair of the population.
// vs: link src/geneva/G_OptimizationAlgorithm_ParChild.cpp src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp src/geneva/G_OptimizationAlgorithm_ParChildT_PersonalityTraits.cpp src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing_PersonalityTraits.cpp
// vs: bound populations of up to 5 individuals with up to 2 parents (native runs: up to 20 individuals), fitness values from a table where probabilities are computed
// vs: entry cooling complete=1
// vs: entry probability complete=1
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing_PersonalityTraits.hpp"
using Alg = Gem::Geneva::GSimulatedAnnealing; using Tr = Gem::Geneva::GSimulatedAnnealing_PersonalityTraits;
#include "parchild.hpp"
static double val(std::uint64_t k) { switch (k) { case 0: return -3.5; case 1: return 0.; case 2: return 0.25; default: return 7.; } }
static void select_(std::size_t np, std::size_t nc, std::size_t extra, maxMode m, double *f, double t0, double al) {
  std::size_t n = np + nc + extra; Alg *a = make(np, nc, false); a->m_t = t0; a->m_alpha = al; std::vector<IP> org; for (std::size_t i = 0; i < n; ++i) { IP p = member(int(i), f[i], m, i < np); org.push_back(p); a->push_back(p); }
  a->selectBest_();
  vs_assert(a->size() == np + nc, "selection restores the nominal population size");
  // where is each original now, and what does it hold?
  for (std::size_t i = 0; i < a->size(); ++i) { std::size_t o = n; for (std::size_t j = 0; j < n; ++j) if (org[j].get() == a->at(i).get()) o = j; vs_assert(o < n, "no new individuals are created"); vs_assert((o < np) == (i < np), "parents stay in front"); vs_assert(traits(a->at(i))->isParent() == (i < np), "parents know that they are parents, children that they are children"); if (i >= np) vs_assert(ind(a->at(i))->tag == int(o), "children are not changed"); }
  for (std::size_t i = 1; i < np; ++i) vs_assert(!better(f[ind(a->at(i))->tag], f[ind(a->at(i - 1))->tag], m), "parents are sorted, best first");
  // the np best children compete, each with one parent
  for (std::size_t i = 0; i < np; ++i) for (std::size_t j = 2 * np; j < a->size(); ++j) vs_assert(!better(f[ind(a->at(j))->tag], f[ind(a->at(np + i))->tag], m), "the best children compete with the parents");
  for (std::size_t i = 1; i < np; ++i) vs_assert(!better(f[ind(a->at(np + i))->tag], f[ind(a->at(np + i - 1))->tag], m), "the i-th best child competes with the i-th parent");
  for (std::size_t i = 0; i < np; ++i) { int c = ind(a->at(np + i))->tag, now = ind(org[i])->tag; vs_assert(now == int(i) || now == c, "a parent stays or is replaced by the child it competes with"); if (!better(f[i], f[c], m)) vs_assert(now == c, "a child that is not worse than the parent replaces it"); if (now == c) vs_assert(traits(org[i])->isParent(), "the child becomes a parent"); }
  vs_assert(vs_same(a->getT(), t0 * al), "each selection cools the system by the requested factor");
}
VS_ENTRY(select) {
  std::size_t np = 1 + vs_choice("np", 2); maxMode m = mode(np == 1 ? vs_choice("mode", 2) : 0); std::size_t nc = np == 1 ? 1 + vs_choice("nc", 2) : 2, extra = vs_choice("extra", 2) & (np == 1); double f[5]; static const char *fn[5] = {"f0", "f1", "f2", "f3", "f4"}; for (std::size_t i = 0; i < np + nc + extra; ++i) f[i] = val(vs_choice(fn[i], np == 1 ? 4 : 3));
  select_(np, nc, extra, m, f, 2., 0.75);
}
VS_ENTRY(select_big) { maxMode m = mode(vs_choice("mode", 2)); std::size_t np = 1 + vs_choice("np", 6), nc = np + vs_choice("nc", 16); double f[32]; for (std::size_t i = 0; i < np + nc; ++i) f[i] = fin("f"); double t = vs_f64("t"), al = vs_f64("al"); vs_assume((t > 0) & (al > 0)); select_(np, nc, 0, m, f, t, al); }
// vs: entry select_big sym=0
VS_ENTRY(probability) {
  Alg *a = new Alg; double p = fin("p"), c = fin("c"), t = vs_f64("t"); vs_assume((t > 0) & (t <= 1e300)); a->m_t = t; double pr = a->saProb(p, c); vs_assert(pr >= 0, "probabilities are not negative"); if (c <= p) vs_assert(pr >= 1, "children that are not worse are always accepted"); else vs_assert(pr <= 1, "children that are worse are accepted with some probability");
}
VS_ENTRY(accept) { // the Metropolis criterion
  maxMode m = mode(vs_choice("mode", 2)); double fp = val(vs_choice("fp", 4)), fc = val(vs_choice("fc", 4)), t = vs_choice("hot", 2) ? 8. : 0.5; vs_assume(better(fp, fc, m)); Alg *a = make(1, 1, false); a->m_t = t; a->push_back(member(0, fp, m, true)); a->push_back(member(1, fc, m, false)); g_last_real = -1;
  a->sortSAMode(); double d = m == maxMode::MAXIMIZE ? fp - fc : fc - fp; vs_assert((ind(a->at(0))->tag == 1) == (g_last_real < std::exp(-d / t)), "a child that is worse by d is accepted with probability exp(-d/T)"); }
VS_ENTRY(hotter) { // native only
  Alg *a = new Alg; double p = fin("p"), c = fin("c"), c2 = fin("c2"), t = vs_f64("t"), u = vs_f64("u"); vs_assume((p < c) & (c < c2) & (t > 0) & (t < u)); a->m_t = t; double x = a->saProb(p, c), y = a->saProb(p, c2); a->m_t = u; double z = a->saProb(p, c); vs_assert(y <= x, "the worse the child, the less likely it is accepted"); vs_assert(z >= x, "the higher the temperature, the more likely children are accepted"); }
// vs: entry hotter sym=0
VS_ENTRY(cooling) {
  Alg *a = new Alg; double t0 = vs_f64("t0"), al = vs_f64("al"); a->setT0(3.); a->setTDegradationStrength(0.5); bool x = vs_throws([&] { a->setT0(t0); }), y = vs_throws([&] { a->setTDegradationStrength(al); }); vs_assert(x == (t0 <= 0) && y == (al <= 0), "temperatures and cooling factors must be positive"); vs_assert(vs_same(a->getT0(), x ? 3. : t0) && vs_same(a->getTDegradationStrength(), y ? 0.5 : al), "values refused change nothing");
  a->resetToOptimizationStart(); vs_assert(vs_same(a->getT(), a->getT0()), "an optimisation starts with the start temperature"); double b = a->getT(); a->updateTemperature(); vs_assert(vs_same(a->getT(), b * a->getTDegradationStrength()), "cooling multiplies the temperature by the factor"); a->resetToOptimizationStart(); vs_assert(vs_same(a->getT(), a->getT0()), "an optimisation starts with the start temperature");
}
VS_ENTRY(population) {
  std::size_t def = vs_choice("def", 7), np = vs_choice("np", 4), n = vs_choice("n", 4); Alg *a = new Alg; a->setPopulationSizes(def, np); bool hole = n && vs_choice("hole", 2); for (std::size_t i = 0; i < n; ++i) a->m_data_cnt.push_back(member(int(i), double(i), maxMode::MINIMIZE, false)); if (hole) a->m_data_cnt[n - 1].reset();
  bool t = vs_throws([&] { a->adjustPopulation_(); }); vs_assert(t == ((def == 0) | (n == 0) | hole), "populations without size, individuals or with empty slots are refused"); if (t) return;
  std::size_t ps = a->size(); vs_assert(ps == (n < def ? def : n), "the population is filled up to its nominal size"); for (std::size_t i = 0; i < ps; ++i) vs_assert(eind(a->at(i))->inits == int(i >= n) && (i < n || ind(a->at(i))->tag == 0), "individuals added are copies with new random values, others are left alone");
  bool u = vs_throws([&] { a->populationSanityChecks_(); }); vs_assert(u == ((np == 0) | (ps < 2 * np)), "each parent needs a child to compete with"); if (u) return;
  a->m_offset = 2; a->m_iteration = 2 + std::uint32_t(vs_choice("it", 2)); auto g = a->getEvaluationRange_(); vs_assert(std::get<0>(g) == (a->m_iteration == 2 ? 0 : np) && std::get<1>(g) == ps, "everything is evaluated in the first iteration, the children only later");
}
