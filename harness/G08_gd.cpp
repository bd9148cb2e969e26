// Contracts of gradient descents: population layout, finite differences, steps against the gradient, evaluation and best individuals.
// vs: link src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp src/geneva/G_OptimizationAlgorithm_GradientDescent_PersonalityTraits.cpp
// vs: bound up to 3 starting points, up to 3 parameters; steps of parents and step widths (extended precision) on a table of values
// vs: set fpuf=["fadd_f64"]
// vs: set ufmemo=1
// vs: set ufnan=1
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent_PersonalityTraits.hpp"
#include "points.hpp"
using Alg = Gem::Geneva::GGradientDescent; using Tr = Gem::Geneva::GGradientDescent_PersonalityTraits;
static Tr *traits(const IP &p) { return static_cast<Tr *>(p->m_pt_ptr.get()); }
static VS_NOINLINE IP member(int k, const double *x, std::size_t d, double f, maxMode m) {
  auto p = std::make_shared<EInd>(); p->m_maxmode = m; p->m_processing_status = processingStatus::PROCESSED; p->m_stored_results_cnt[0] = parameterset_processing_result(raw_of(f), f); p->fit = f; p->tag = k; p->m_pt_ptr = std::make_shared<Tr>(); for (std::size_t i = 0; i < d; ++i) p->push_back(std::make_shared<GDoubleObject>(x[i])); return p;
}
static double table(const char *n, double a, double b) { if (!vs_is_symbolic()) return small(n); return vs_choice(n, 2) ? a : b; }
static const double ZERO[3] = {0, 0, 0};
// a running algorithm with n starting points and d parameters
static VS_NOINLINE Alg *make(std::size_t n, std::size_t d, bool first) { Alg *a = new Alg(n, 1., 1.); a->m_offset = 2; a->m_iteration = first ? 2 : 5; a->nFPParmsFirst_ = d; return a; }
VS_ENTRY(settings) {
  Alg *a = new Alg(1, 1., 1.); std::size_t n = vs_u64("n"); bool t = vs_throws([&] { a->setNStartingPoints(n); }); vs_assert(t == (n == 0) && a->getNStartingPoints() == (t ? 1 : n), "there is at least one starting point");
  double f = vs_f64("finite"), s = vs_f64("step"); vs_assume((f == f) & (s == s)); bool tf = vs_throws([&] { a->setFiniteStep(f); }), ts = vs_throws([&] { a->setStepSize(s); });
  vs_assert(tf == ((f <= 0) | (f > 1000)) && ts == ((s <= 0) | (s > 1000)), "step widths are per mille of the value range and must be positive"); vs_assert(vs_same(a->getFiniteStep(), tf ? 1. : f) && vs_same(a->getStepSize(), ts ? 1. : s), "step widths that are valid are used, others change nothing");
  Alg *b; if (vs_choice("how", 2)) b = new Alg(*a); else { b = new Alg(7, 2., 3.); b->GObject::load(static_cast<const GObject &>(*a)); } vs_assert(b->getNStartingPoints() == a->getNStartingPoints() && vs_same(b->getFiniteStep(), a->getFiniteStep()) && vs_same(b->getStepSize(), a->getStepSize()), "settings are copied");
}
VS_ENTRY(adjust_population) {
  std::size_t n = 1 + vs_choice("starts", 3), d = vs_choice("d", 3), k = vs_choice("given", 5); bool other = vs_choice("other", 2); Alg *a = new Alg(n, 1., 1.); double x[3] = {fin("x"), 1., 2.};
  for (std::size_t i = 0; i < k; ++i) a->push_back(member(int(i), x, d + std::size_t(other && i + 1 == k && i > 0), 0, maxMode::MINIMIZE));
  bool bad = other && k > 1; bool t = vs_throws([&] { a->adjustPopulation_(); }); vs_assert(t == (k == 0 || d == 0 || bad), "individuals need real parameters, the same number in each"); if (t) return;
  vs_assert(a->size() == n * (d + 1) && a->getDefaultPopulationSize() == n * (d + 1) && a->getNProcessableItems_() == a->size(), "there is one individual for each starting point and one for each parameter of each starting point");
  for (std::size_t i = 0; i < n; ++i) { EInd *p = eind(a->at(i)); vs_assert(p->tag == (i < k ? int(i) : 0) && p->inits == (i < k ? 0 : 1), "the individuals given are the starting points, missing ones are random"); for (std::size_t j = 0; j < d; ++j) { IP c = a->at(n + i * d + j); vs_assert(ind(c)->tag == p->tag && (coord(c, 0) == x[0]), "children are copies of their starting point"); } }
  for (std::size_t i = 0; i < a->size(); ++i) for (std::size_t j = 0; j < i; ++j) vs_assert(a->at(i) != a->at(j), "all individuals are distinct");
}
VS_ENTRY(init_steps) {
  double f = vs_choice("f", 2) ? 0.5 : 250., s = vs_choice("s", 2) ? 2. : 125.; double lo[2], hi[2]; static const char *ln[2] = {"l0", "l1"}, *hn[2] = {"h0", "h1"}; for (int i = 0; i < 2; ++i) { lo[i] = table(ln[i], -3., 0.25); hi[i] = lo[i] + 1. + (vs_is_symbolic() ? vs_choice(hn[i], 2) ? 0. : 6. : std::fabs(small(hn[i]))); }
  Alg *a = make(1, 2, true); auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; a->setFiniteStep(f); a->setStepSize(s); a->adjustedFiniteStep_.push_back(77.);
  for (int k = 0; k < 3; ++k) { IP p = member(k, ZERO, 0, 0, maxMode::MINIMIZE); for (int i = 0; i < 2; ++i) { auto q = std::make_shared<GDoubleObject>(lo[i]); q->setInitBoundaries(lo[i], hi[i]); p->push_back(q); } a->push_back(p); }
  a->init(); vs_assert(a->adjustedFiniteStep_.size() == 2, "each parameter has its own finite step"); for (int i = 0; i < 2; ++i) { double w = (hi[i] - lo[i]) * f / 1000., g = a->adjustedFiniteStep_[i]; vs_assert((std::fabs(g - w) <= 1e-9), "finite steps are the requested part of the value range of each parameter"); }
  double r = double(a->stepRatio_) * f - s; vs_assert((std::fabs(r) <= 1e-9), "steps and finite steps have the requested ratio"); for (std::size_t k = 0; k < 3; ++k) vs_assert(traits(a->at(k))->getPopulationPosition() == k, "individuals know their position");
  a->resetToOptimizationStart(); vs_assert(a->adjustedFiniteStep_.empty() && a->dblLowerParameterBoundaries_.empty() && a->dblUpperParameterBoundaries_.empty() && a->empty(), "a reset forgets step widths and individuals");
}
VS_ENTRY(children) {
  std::size_t n = 1 + vs_choice("starts", 2), d = 1 + vs_choice("d", n == 1 ? 3 : 2); Alg *a = make(n, d, false); double x[2][3], h[3]; static const char *xn[6] = {"x0", "x1", "x2", "x3", "x4", "x5"}, *hn[3] = {"h0", "h1", "h2"};
  for (std::size_t j = 0; j < d; ++j) a->adjustedFiniteStep_.push_back(h[j] = small(hn[j])); for (std::size_t i = 0; i < n; ++i) { for (std::size_t j = 0; j < d; ++j) x[i][j] = small(xn[i * 3 + j]); a->push_back(member(int(i), x[i], d, 1., maxMode::MINIMIZE)); } double y[3] = {100., 100., 100.}; for (std::size_t i = 0; i < n * d; ++i) a->push_back(member(50, y, d, 2., maxMode::MINIMIZE)); std::vector<IP> org(a->begin(), a->end());
  a->updateChildParameters(); vs_assert(a->size() == n * (d + 1), "the population keeps its size"); for (std::size_t i = 0; i < a->size(); ++i) vs_assert(a->at(i) == org[i], "individuals keep their position");
  for (std::size_t i = 0; i < n; ++i) { for (std::size_t j = 0; j < d; ++j) vs_assert(coord(a->at(i), j) == x[i][j], "starting points stay where they are"); vs_assert(a->at(i)->is_processed(), "starting points keep their result");
    for (std::size_t j = 0; j < d; ++j) { IP c = a->at(n + i * d + j); vs_assert(ind(c)->tag == int(i) && c->is_due_for_processing() && traits(c)->getPopulationPosition() == n + i * d + j, "children follow their starting point and are evaluated again"); for (std::size_t l = 0; l < d; ++l) { double w = l == j ? plus(x[i][l], h[l]) : x[i][l]; double v = coord(c, l); if (l == j) vs_assert(near(v, w), "each child differs from its starting point by the finite step of one parameter"); else vs_assert(v == w, "all other parameters of a child are those of its starting point, exactly"); } } }
}
VS_ENTRY(parents) {
  std::size_t n = 2, d = 2; std::size_t wi = vs_choice("which", 2), wj = vs_choice("coordinate", 2); maxMode m = mode(vs_choice("mode", 2)); Alg *a = make(n, d, false); double ratio = table("ratio", 0.5, 8.), x[2][2], fp[2], fc[2][2]; if (!vs_is_symbolic()) ratio = std::fabs(ratio) + 0.1; a->stepRatio_ = ratio; std::uint64_t st = vs_choice("status", 3);
  for (std::size_t i = 0; i < n; ++i) { for (std::size_t j = 0; j < d; ++j) x[i][j] = 1. + double(i) * 4. + double(j) * 0.5; fp[i] = 2. + double(i); if (i == wi) { x[i][wj] = table("x", -0.75, 3.); fp[i] = table("fp", -1.5, 6.); } a->push_back(member(int(i), x[i], d, fp[i], m)); }
  for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < d; ++j) { fc[i][j] = fp[i] + (j ? 0.25 : -0.5); if (i == wi && j == wj) fc[i][j] = vs_is_symbolic() ? fp[i] + (vs_choice("fc", 2) ? -0.125 : 1.75) : small("fc"); a->push_back(member(9, ZERO, d, fc[i][j], m)); }
  if (st) a->at(1)->m_processing_status = st == 1 ? processingStatus::DO_PROCESS : processingStatus::EXCEPTION_CAUGHT;
  bool t = vs_throws([&] { a->updateParentIndividuals(); }); vs_assert(t == (st != 0), "starting points need a valid result"); if (t) return;
  for (std::size_t i = 0; i < n; ++i) { vs_assert(a->at(i)->is_due_for_processing() && ind(a->at(i))->tag == int(i), "starting points that have moved are evaluated again"); for (std::size_t j = 0; j < d; ++j) { double g = fc[i][j] - fp[i]; if (m == maxMode::MAXIMIZE) g = -g; double v = coord(a->at(i), j); vs_assert((std::fabs(v - (x[i][j] - ratio * g)) <= 1e-9), "each parameter moves against its finite difference, towards better values"); } }
  for (std::size_t k = n; k < a->size(); ++k) for (std::size_t j = 0; j < d; ++j) vs_assert(coord(a->at(k), j) == 0, "children are left alone");
}
VS_ENTRY(evaluate) {
  bool first = vs_choice("first", 2); Alg *a = make(1, 2, first); auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; bool all = true, due = true; static const char *on[3] = {"o0", "o1", "o2"}, *sn[3] = {"s0", "s1", "s2"}; std::vector<IP> org;
  for (int k = 0; k < 3; ++k) { IP p = member(k, ZERO, 2, double(k), maxMode::MINIMIZE); ind(p)->outcome = int(vs_choice(on[k], 3)); all &= ind(p)->outcome == O_OK; if (!vs_choice(sn[k], 2)) due = false; else p->mark_as_due_for_processing(); a->push_back(p); org.push_back(p); }
  bool t = vs_throws([&] { a->runFitnessCalculation_(); }); vs_assert(t == ((!first && !due) || !all), "every individual must come back with a result"); if (t) return; vs_assert(ex->submitted == 3 && a->size() == 3, "every individual is evaluated exactly once");
  for (int k = 0; k < 3; ++k) vs_assert(a->at(k) == org[k] && a->at(k)->is_processed(), "individuals keep their position");
}
VS_ENTRY(cycle) { // one iteration, seen from outside
  bool first = vs_choice("first", 2); std::size_t n = 1 + vs_choice("starts", 2), d = 1; maxMode m = mode(vs_choice("mode", 2)); Alg *a = make(n, d, first); auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; a->stepRatio_ = 4.; a->adjustedFiniteStep_.push_back(0.25); double f[4]; static const char *fn[4] = {"f0", "f1", "f2", "f3"};
  for (std::size_t i = 0; i < 2 * n; ++i) { double x = double(i), old = double(i + 1) * double(i + 2); f[i] = vs_f64(fn[i]); vs_assume((f[i] > -1e300) & (f[i] < 1e300)); IP p = member(int(i), &x, d, old, m); ind(p)->fit = f[i]; if (first) p->mark_as_due_for_processing(); a->push_back(p); } 
  auto r = a->cycleLogic_(); vs_assert(ex->submitted == int(2 * n), "all individuals are evaluated in each iteration"); double w = f[0]; for (std::size_t i = 1; i < n; ++i) if (better(f[i], w, m)) set(w, f[i]);
  vs_assert((std::get<0>(r) == raw_of(w)) & (std::get<1>(r) == w), "the best starting point is reported");
  for (std::size_t i = 0; i < n; ++i) { double old = double(i + 1) * double(i + 2), co = double(n + i + 1) * double(n + i + 2), g = m == maxMode::MAXIMIZE ? old - co : co - old, x = double(i) - (first ? 0. : 4. * g); vs_assert(coord(a->at(i), 0) == x && coord(a->at(n + i), 0) == x + 0.25, "starting points step against the gradient of the previous iteration, then children are placed next to them"); }
}
