// Contracts of parameter scans: the values scanned, the order of combinations, simple (random) scans, evaluation and best individuals.
// vs: link src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp src/geneva/G_OptimizationAlgorithm_ParameterScan_PersonalityTraits.cpp
// vs: nlink src/geneva/GParameterPropertyParser.cpp
// vs: bound up to 3 scanned parameters with up to 3 values each, populations of up to 4 individuals
// vs: model ^std::_Bit_reference::operator=\(bool\) => vs_model_bit
// vs: contract std::vector<bool>: assignment to an element stores the bit
#include "hap/GRandomBase.hpp"
#include "vs.hpp"
#include <random>
using GB = Gem::Hap::GRandomBase;
struct Rnd : GB { result_type int_random() override { return 0; } };
static float g_f = 0; static double g_d = 0; static std::int32_t g_i = 0; static bool g_b = false;
namespace std {
template <> template <> double uniform_real_distribution<double>::operator()<GB>(GB &, const param_type &p) { double x = vs_f64("rnd"); vs_assume((x >= p.a()) & (x < p.b())); return g_d = x; }
template <> template <> float uniform_real_distribution<float>::operator()<GB>(GB &, const param_type &p) { double x = vs_f64("rnd"); float y = vs_is_symbolic() ? p.a() : float(x); vs_assume((y >= p.a()) & (y < p.b())); return g_f = y; }
template <> template <> int uniform_int_distribution<int>::operator()<GB>(GB &, const param_type &p) { vs_assert(p.a() <= p.b(), "random integers are requested from a range that is not empty"); int x = vs_i32("rndi"); vs_assume((x >= p.a()) & (x <= p.b())); return g_i = x; }
template <> bool bernoulli_distribution::operator()<GB>(GB &, const param_type &p) { bool x = vs_choice("trial", 2); vs_assume(x ? p.p() > 0 : p.p() < 1); return g_b = x; }
}
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan_PersonalityTraits.hpp"
#include "points.hpp"
using Alg = Gem::Geneva::GParameterScan; using Tr = Gem::Geneva::GParameterScan_PersonalityTraits;
extern "C" std::_Bit_reference &vs_model_bit(std::_Bit_reference *b, bool x) { *b->_M_p = (*b->_M_p & ~b->_M_mask) | (-static_cast<unsigned long>(x) & b->_M_mask); return *b; }
template <typename T> static parPropSpec<T> spec(std::size_t mode, const char *name, std::size_t pos, T lo, T hi, std::size_t n) { parPropSpec<T> s; s.var = NAMEANDIDTYPE(mode, std::string(name), pos); s.lowerBoundary = lo; s.upperBoundary = hi; s.nSteps = n; return s; }
static Tr *traits(const IP &p) { return static_cast<Tr *>(p->m_pt_ptr.get()); }
static VS_NOINLINE std::shared_ptr<EInd> member(int k, double f, maxMode m) { auto p = std::make_shared<EInd>(); p->m_maxmode = m; p->m_processing_status = processingStatus::PROCESSED; p->m_stored_results_cnt[0] = parameterset_processing_result(raw_of(f), f); p->fit = f; p->tag = k; p->m_pt_ptr = std::make_shared<Tr>(); return p; }
VS_ENTRY(grids) {
  std::size_t n = vs_choice("n", 5); double lo = vs_choice("lo", 2) ? -3. : 0.5, w = vs_choice("w", 2) ? 1. : 6.; if (!vs_is_symbolic()) { lo = small("l"); w = std::fabs(small("r")); } std::vector<double> v; std::vector<float> u; bool t = vs_throws([&] { v = fillWithData<double>(n, lo, lo + w); }), tf = vs_throws([&] { u = fillWithData<float>(n, float(lo), float(lo + w)); });
  vs_assert(t == (n < 2) && tf == t, "grids of floating point numbers need two values"); if (!t) { vs_assert(v.size() == n && u.size() == n, "grids have the requested size"); for (std::size_t i = 0; i < n; ++i) { double e = lo + w * double(i) / double(n - 1); vs_assert((std::fabs(v[i] - e) < 1e-9) & (std::fabs(double(u[i]) - e) < 1e-4), "grids are equidistant and include both boundaries"); } vs_assert(v[0] == lo, "grids start at the lower boundary"); }
  std::int32_t a = std::int32_t(vs_choice("a", 4)) - 2; std::size_t k = vs_choice("k", 4); std::vector<std::int32_t> x = fillWithData<std::int32_t>(n, a, a + std::int32_t(k) - 1); vs_assert(x.size() == k, "integer grids contain all values of the range"); for (std::size_t i = 0; i < k; ++i) vs_assert(x[i] == a + std::int32_t(i), "integer grids contain all values of the range");
  std::vector<bool> y = fillWithData<bool>(n, false, true); vs_assert(y.size() == 2 && !y[0] && y[1], "boolean grids contain both values");
}
template <typename S, typename T> static void walk(S *s, std::size_t n, const T *vals, std::size_t step) {
  Rnd r; for (std::size_t i = 0; i < step; ++i) s->goToNextItem(); std::size_t at = step % n; S *c = new S(*s); auto k = s->clone();
  for (S *x : {s, c, k.get()}) { vs_assert(x->getCurrentItemPos() == at && x->isAtFirstPosition() == (at == 0) && x->size() == n && x->getTypeDescriptor().size() == 1 && std::get<2>(x->getVarAddress()) == 3, "copies of scan parameters are complete"); for (std::size_t i = at; i < at + n; ++i) { vs_assert(x->getCurrentItem(r) == vals[i % n], "scan parameters visit each value of the grid"); bool w = x->goToNextItem(); vs_assert(w == (i % n + 1 == n), "a scan parameter reports when it starts again"); } x->goToNextItem(); x->resetPosition(); vs_assert(x->isAtFirstPosition() && x->getCurrentItem(r) == vals[0], "a scan parameter can be rewound"); }
}
VS_ENTRY(grid_parameters) {
  std::size_t ns = vs_choice("steps", 5), step = vs_choice("advance", 5); std::uint64_t ty = vs_choice("type", 4); std::size_t k = 1 + vs_choice("k", 3); std::int32_t iv[3] = {-1, 0, 1}; bool bv[2] = {false, true}; double dv[4]; float fv[4];
  if (ty == 0) walk<int32ScanPar, std::int32_t>(new int32ScanPar(spec<std::int32_t>(0, "empty", 3, -1, std::int32_t(k) - 2, ns), false), k, iv, step);
  else if (ty == 1) walk<bScanPar, bool>(new bScanPar(spec<bool>(0, "empty", 3, false, true, ns), false), 2, bv, step);
  else { if (ns < 2) return; for (std::size_t i = 0; i < ns; ++i) { dv[i] = 1. + 12. * double(i) / double(ns - 1); fv[i] = float(dv[i]); } if (ty == 2) walk<dScanPar, double>(new dScanPar(spec<double>(0, "empty", 3, 1., 13., ns), false), ns, dv, step); else walk<fScanPar, float>(new fScanPar(spec<float>(0, "empty", 3, 1.f, 13.f, ns), false), ns, fv, step); }
}
VS_ENTRY(random_parameters) {
  Rnd r; std::uint64_t ty = vs_choice("type", 4); std::size_t n = 1 + vs_choice("steps", 3); bool c = vs_choice("copy", 2); double lo = vs_f64("lo"), hi = vs_f64("hi"); vs_assume((lo < hi) & (lo > -1e30) & (hi < 1e30)); std::int32_t a = vs_i32("a"), b = vs_i32("b"); vs_assume(a <= b); scanParInterface *s;
  if (ty == 0) { int32ScanPar *p = new int32ScanPar(spec<std::int32_t>(0, "empty", 3, a, b, n), true); if (c) p = new int32ScanPar(*p); std::int32_t x = p->getCurrentItem(r); vs_assert((x >= a) & (x <= b) & (x == g_i), "random values are taken from the requested range"); s = p; }
  else if (ty == 1) { bScanPar *p = new bScanPar(spec<bool>(0, "empty", 3, false, true, n), true); if (c) p = new bScanPar(*p); bool x = p->getCurrentItem(r); vs_assert(x == g_b, "random values are taken from the requested range"); s = p; }
  else if (ty == 2) { dScanPar *p = new dScanPar(spec<double>(0, "empty", 3, lo, hi, n), true); if (c) p = new dScanPar(*p); double x = p->getCurrentItem(r); vs_assert((x >= lo) & (x <= hi) & (x == g_d), "random values are taken from the requested range"); s = p; }
  else { fScanPar *p = new fScanPar(spec<float>(0, "empty", 3, -1.f, 2.f, n), true); if (c) p = new fScanPar(*p); float x = p->getCurrentItem(r); vs_assert((x >= -1.f) & (x <= 2.f) & (x == g_f), "random values are taken from the requested range"); s = p; }
  for (std::size_t i = 0; i < n; ++i) vs_assert(s->goToNextItem() == (i + 1 == n), "the requested number of random values is used");
}
// individuals with two real, one integer and one boolean parameter
static VS_NOINLINE IP point(int k, bool named) { auto p = member(k, 0, maxMode::MINIMIZE); auto q = std::make_shared<GDoubleObject>(50.); if (named) q->setParameterName("x"); p->push_back(q); q = std::make_shared<GDoubleObject>(60.); if (named) q->setParameterName("y"); p->push_back(q); auto i = std::make_shared<GInt32Object>(70); if (named) i->setParameterName("i"); p->push_back(i); auto b = std::make_shared<GBooleanObject>(true); if (named) b->setParameterName("b"); p->push_back(b); return p; }
static int ivalue(const IP &p) { return static_cast<GInt32Object *>(p->at(2).get())->value(); }
static bool bvalue(const IP &p) { return static_cast<GBooleanObject *>(p->at(3).get())->value(); }
// vs: entry combinations time=300
VS_ENTRY(combinations) { // the whole scan, iteration by iteration
  std::size_t pop = 1 + vs_choice("population", 4); bool named = vs_choice("named", 2); std::uint64_t what = vs_choice("what", 4); std::size_t nd = 2 + vs_choice("nd", 2), nx = 1, ni = 1, nb = 1, mode = named ? 2 : 0; Alg *a = new Alg; auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; a->setDefaultPopulationSize(pop); for (std::size_t i = 0; i < pop; ++i) a->push_back(point(int(i), named));
  if (what != 3) { nx = nd; a->m_d_cnt.push_back(std::make_shared<dScanPar>(spec<double>(mode, "y", named ? 0 : 1, 0., double(nd) - 1., nd), false)); } if (what == 1 || what == 3) { ni = 3; a->m_int32_cnt.push_back(std::make_shared<int32ScanPar>(spec<std::int32_t>(mode, "i", 0, 0, 2, 7), false)); } if (what >= 2) { nb = 2; a->m_b_cnt.push_back(std::make_shared<bScanPar>(spec<bool>(mode, "b", 0, false, true, 7), false)); }
  a->init(); vs_assert(a->m_all_par_cnt.size() == std::size_t(nx > 1) + std::size_t(ni > 1) + std::size_t(nb > 1) && !a->customHalt_(), "a scan starts with all parameters"); std::size_t total = nx * ni * nb, seen = 0; unsigned mask = 0; bool halted = false;
  for (int it = 0; it < 13 && !halted; ++it) { a->updateSelectedParameters(); std::size_t want = total - seen < pop ? total - seen : pop; vs_assert(a->size() == want, "each iteration takes as many combinations as fit into the population, the last one what is left");
    for (std::size_t k = 0; k < a->size(); ++k) { IP p = a->at(k); double y = coord(p, 1); int i = ivalue(p); bool b = bvalue(p); vs_assert(coord(p, 0) == 50. && (nx > 1 || y == 60.) && (ni > 1 || i == 70) && (nb > 1 || b), "only the parameters that are scanned change"); vs_assert(p->is_due_for_processing(), "each combination is evaluated"); unsigned c = unsigned((nx > 1 ? std::size_t(y) : 0) + nx * ((ni > 1 ? std::size_t(i) : 0) + ni * (nb > 1 ? b : 0))); vs_assert(c < total && !(mask >> c & 1), "no combination is evaluated twice"); mask |= 1u << c; p->m_processing_status = processingStatus::PROCESSED; ++seen; }
    halted = a->customHalt_(); vs_assert(halted == (seen == total), "the scan ends when all combinations have been evaluated, not before"); }
  vs_assert(seen == total && mask == (1u << total) - 1, "each combination of values is evaluated exactly once");
}
VS_ENTRY(simple_scans) {
  std::size_t pop = 1 + vs_choice("population", 3), want = 1 + vs_choice("scans", 6); Alg *a = new Alg; auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; a->setDefaultPopulationSize(pop); a->setNSimpleScans(want); for (std::size_t i = 0; i < pop; ++i) a->push_back(member(int(i), 0, maxMode::MINIMIZE)); a->init(); std::size_t done = 0;
  for (std::size_t it = 1; it < 9; ++it) { a->randomShuffle(); std::size_t n = want - done < pop ? want - done : pop; vs_assert(a->size() == n, "the last iteration only contains the scans that are left"); for (std::size_t k = 0; k < n; ++k) { vs_assert(eind(a->at(k))->inits == int(it) && a->at(k)->is_due_for_processing(), "each individual is a new random one, which is evaluated"); a->at(k)->m_processing_status = processingStatus::PROCESSED; } done += n; vs_assert(a->getNScansPerformed() == done, "the scans performed are counted"); bool h = a->customHalt_(); vs_assert(h == (done == want), "the scan ends after the requested number of random individuals"); if (h) break; }
  vs_assert(done == want && a->getNSimpleScans() == want, "the requested number of random individuals is evaluated"); if (vs_choice("again", 2)) { a->init(); vs_assert(a->getNScansPerformed() == 0 && !a->customHalt_(), "a scan can be repeated"); return; } a->resetToOptimizationStart(); vs_assert(a->getNSimpleScans() == want && a->getNScansPerformed() == 0 && !a->customHalt_() && a->empty(), "a reset keeps the settings");
}
VS_ENTRY(adjust_population) {
  std::size_t n = vs_choice("given", 4), pop = vs_choice("population", 4); Alg *a = new Alg; a->m_defaultPopulationSize = pop; for (std::size_t i = 0; i < n; ++i) a->push_back(member(int(i), 0, maxMode::MINIMIZE)); bool t = vs_throws([&] { a->adjustPopulation_(); }); vs_assert(t == (n == 0 || pop == 0), "a scan needs an individual and a population size"); if (t) return;
  vs_assert(a->size() == pop && a->getNProcessableItems_() == pop, "the population has the requested size"); for (std::size_t i = 0; i < pop; ++i) { vs_assert(ind(a->at(i))->tag == 0, "all individuals are copies of the first"); for (std::size_t j = 0; j < i; ++j) vs_assert(a->at(i) != a->at(j), "all individuals are distinct"); }
}
VS_ENTRY(evaluate) {
  Alg *a = new Alg; auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; bool all = true, due = true; static const char *on[2] = {"o0", "o1"}, *sn[2] = {"s0", "s1"}; std::vector<IP> org;
  for (int k = 0; k < 2; ++k) { IP p = member(k, double(k), maxMode::MINIMIZE); ind(p)->outcome = int(vs_choice(on[k], 3)); all &= ind(p)->outcome == O_OK; if (!vs_choice(sn[k], 2)) due = false; else p->mark_as_due_for_processing(); a->push_back(p); org.push_back(p); }
  bool t = vs_throws([&] { a->runFitnessCalculation_(); }); vs_assert(t == (!due || !all), "every individual must come back with a result"); if (t) return; vs_assert(ex->submitted == 2 && a->size() == 2, "every individual is evaluated exactly once"); for (int k = 0; k < 2; ++k) vs_assert(a->at(k) == org[k] && a->at(k)->is_processed(), "individuals keep their position");
}
VS_ENTRY(cycle) {
  bool simple = vs_choice("simple", 2); maxMode m = mode(vs_choice("mode", 2)); std::size_t n = 1 + vs_choice("n", 3); Alg *a = new Alg; auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; a->setDefaultPopulationSize(n); double f[3]; static const char *fn[3] = {"f0", "f1", "f2"}; for (std::size_t i = 0; i < n; ++i) { f[i] = vs_f64(fn[i]); vs_assume((f[i] > -1e300) & (f[i] < 1e300)); auto p = member(int(i), 0, m); p->fit = f[i]; if (!simple) p->push_back(std::make_shared<GDoubleObject>(9.)); a->push_back(p); }
  if (simple) a->setNSimpleScans(100); else a->m_d_cnt.push_back(std::make_shared<dScanPar>(spec<double>(0, "empty", 0, 0., 4., 5), false)); a->init(); auto r = a->cycleLogic_(); double w = f[0]; for (std::size_t i = 1; i < n; ++i) if (better(f[i], w, m)) set(w, f[i]);
  vs_assert((std::get<0>(r) == raw_of(w)) & (std::get<1>(r) == w), "the best individual of the iteration is reported"); vs_assert(ex->submitted == int(n), "all individuals are evaluated"); for (std::size_t i = 0; i < n; ++i) { if (simple) vs_assert(eind(a->at(i))->inits == 1, "simple scans use random individuals"); else vs_assert(coord(a->at(i), 0) == double(i), "other scans use the next combinations of values"); }
}
VS_ENTRY(copies) {
  Alg *a = new Alg; std::size_t s = vs_u64("scans"), p = vs_u64("performed"), mi = vs_u64("monitor"); a->setNSimpleScans(s); a->m_scansPerformed = p; a->setNMonitorInds(mi); bool r = vs_choice("random", 2), h = vs_choice("halt", 2); a->setScanRandomly(r); a->m_cycleLogicHalt = h; auto q = std::make_shared<dScanPar>(spec<double>(0, "empty", 1, 0., 2., 3), r); q->goToNextItem(); a->m_d_cnt.push_back(q); a->m_b_cnt.push_back(std::make_shared<bScanPar>(spec<bool>(0, "empty", 2, false, true, 2), r)); a->m_int32_cnt.push_back(std::make_shared<int32ScanPar>(spec<std::int32_t>(0, "empty", 3, 0, 2, 3), r)); a->m_f_cnt.push_back(std::make_shared<fScanPar>(spec<float>(0, "empty", 4, 0.f, 2.f, 3), r));
  Alg *b; if (vs_choice("how", 2)) b = new Alg(*a); else { b = new Alg; b->m_d_cnt.push_back(q); b->m_b_cnt.push_back(a->m_b_cnt[0]); b->GObject::load(static_cast<const GObject &>(*a)); }
  vs_assert(b->getNSimpleScans() == s && b->getNScansPerformed() == p && b->getNMonitorInds() == mi && b->getScanRandomly() == r && b->customHalt_() == h, "settings and progress are copied"); vs_assert(b->m_d_cnt.size() == 1 && b->m_b_cnt.size() == 1 && b->m_int32_cnt.size() == 1 && b->m_f_cnt.size() == 1, "scan parameters are copied");
  dScanPar *d = b->m_d_cnt[0].get(); vs_assert(d != q.get() && d->getCurrentItemPos() == 1 && d->m_nSteps == 3 && d->m_randomScan == r && d->size() == (r ? 0u : 3u) && (d->m_lower == 0) & (d->m_upper == 2) && std::get<2>(d->getVarAddress()) == 1, "scan parameters are copied"); vs_assert(b->m_int32_cnt[0]->m_nSteps == 3 && b->m_b_cnt[0]->m_nSteps == 2 && b->m_f_cnt[0]->m_nSteps == 3, "scan parameters are copied");
  d->goToNextItem(); vs_assert(q->getCurrentItemPos() == 1, "copies have scan parameters of their own");
}
// vs: entry specification sym=0
VS_ENTRY(specification) { // the parser (Boost.Spirit) is executed only
  Alg *a = new Alg; bool r = vs_choice("random", 2); a->setScanRandomly(r); std::uint64_t k = vs_choice("k", 4); static const char *sp[4] = {"d(0, -10., 10.5, 3), d(1,0,1)", "i(x[2], -3, 7, 4), b(flag)", "s(17)", "f(3, 0.5, 1.5, 2), d(y, 0., 1., 5), s(4)"}; a->setParameterSpecs(sp[k]); vs_assert(vs_throws([&] { a->setParameterSpecs(""); }), "a specification must not be empty");
  vs_assert(a->getNSimpleScans() == (k == 2 ? 17u : k == 3 ? 4u : 0u) && a->m_d_cnt.size() == (k == 0 ? 2u : 0u) && a->m_int32_cnt.size() == (k == 1) && a->m_b_cnt.size() == (k == 1) && a->m_f_cnt.empty(), "the parameters given are scanned; simple scans replace all others");
  if (k == 0) { dScanPar *p = a->m_d_cnt[0].get(), *q = a->m_d_cnt[1].get(); vs_assert(p->m_nSteps == 3 && p->m_lower == -10. && p->m_upper == 10.5 && p->m_var == NAMEANDIDTYPE(0, "empty", 0) && q->m_nSteps == 100 && q->m_var == NAMEANDIDTYPE(0, "empty", 1) && p->m_randomScan == r, "boundaries and steps are used"); }
  if (k == 1) { int32ScanPar *p = a->m_int32_cnt[0].get(); vs_assert(p->m_nSteps == (r ? 4u : 11u) && p->m_lower == -3 && p->m_upper == 7 && p->m_var == NAMEANDIDTYPE(1, "x", 2) && a->m_b_cnt[0]->m_var == NAMEANDIDTYPE(2, "flag", 0) && a->m_b_cnt[0]->m_nSteps == (r ? 100u : 2u), "boundaries and steps are used"); }
}
