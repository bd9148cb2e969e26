// Contracts of individuals as containers of parameters: cross-over, initialisation, adaption, combination of criteria, setting the fitness.
// vs: bound individuals with up to 3 parameters of a type, up to 2 criteria
#include "points.hpp"
#include "stubparam.hpp"
static const char *RN[3] = {"r0", "r1", "r2"};
// values of the parameters of one type, in order
template <typename O, typename V> static std::vector<V> values(GParameterSet &p) { std::vector<V> v; for (std::size_t i = 0; i < p.size(); ++i) if (auto *o = dynamic_cast<O *>(p.at(i).get())) v.push_back(o->value()); return v; }
template <typename V> static bool crossed(const std::vector<V> &a, const std::vector<V> &b, const std::vector<V> &c) {
  std::size_t n = a.size(); if (c.size() != n) return false; if (n < 2) return c == a;
  std::size_t pos = 0; while (pos < n && c[pos] == a[pos]) ++pos; for (std::size_t i = pos; i < n; ++i) if (!(c[i] == b[i])) return false; return (pos >= 1) & (pos < n);
}
VS_ENTRY(crossover) {
  std::size_t nd = vs_choice("nd", 4), ni = vs_choice("ni", 3), nb = vs_choice("nb", 3); auto a = std::make_shared<Ind>(), b = std::make_shared<Ind>(); 
  for (int w = 0; w < 2; ++w) { auto &p = w ? b : a; for (std::size_t i = 0; i < 3; ++i) { if (i < ni) p->push_back(std::make_shared<GInt32Object>(int(100 * w + i))); if (i < nd) p->push_back(std::make_shared<GDoubleObject>(double(w) * 0.5 + double(i))); if (i < nb) p->push_back(std::make_shared<GBooleanObject>(bool(w))); } p->m_processing_status = processingStatus::PROCESSED; }
  auto ad = values<GDoubleObject, double>(*a), bd = values<GDoubleObject, double>(*b); auto ai = values<GInt32Object, std::int32_t>(*a), bi = values<GInt32Object, std::int32_t>(*b); auto ab = values<GBooleanObject, bool>(*a), bb = values<GBooleanObject, bool>(*b);
  std::shared_ptr<GParameterSet> c; bool t = vs_throws([&] { c = a->crossOverWith(b); }); vs_assert(!t, "individuals of the same structure can be crossed"); if (t) return;
  vs_assert(c.get() != a.get() && c.get() != b.get() && c->size() == a->size(), "crossing creates a new individual of the same structure"); for (std::size_t i = 0; i < c->size(); ++i) vs_assert(c->at(i).get() != a->at(i).get() && c->at(i).get() != b->at(i).get(), "the parameters of the new individual are its own");
  vs_assert(crossed(ad, bd, values<GDoubleObject, double>(*c)) && crossed(ai, bi, values<GInt32Object, std::int32_t>(*c)) && crossed(ab, bb, values<GBooleanObject, bool>(*c)), "for each type the first parameters come from the first individual and the others from the second one, at least one from each");
  vs_assert(values<GDoubleObject, double>(*a) == ad && values<GDoubleObject, double>(*b) == bd && values<GInt32Object, std::int32_t>(*a) == ai && values<GInt32Object, std::int32_t>(*b) == bi && values<GBooleanObject, bool>(*a) == ab && values<GBooleanObject, bool>(*b) == bb && a->is_processed() && b->is_processed(), "crossing leaves both individuals alone");
  vs_assert(c->is_due_for_processing(), "the new individual is due for processing");
}
VS_ENTRY(cross_mismatch) {
  auto a = std::make_shared<Ind>(), b = std::make_shared<Ind>(); std::size_t k = vs_choice("kind", 3), n = 1 + vs_choice("n", 3), m = 1 + vs_choice("m", 3); vs_assume(n != m);
  for (std::size_t i = 0; i < n; ++i) if (k == 0) a->push_back(std::make_shared<GDoubleObject>(1.)); else if (k == 1) a->push_back(std::make_shared<GInt32Object>(1)); else a->push_back(std::make_shared<GBooleanObject>(true));
  for (std::size_t i = 0; i < m; ++i) if (k == 0) b->push_back(std::make_shared<GDoubleObject>(1.)); else if (k == 1) b->push_back(std::make_shared<GInt32Object>(1)); else b->push_back(std::make_shared<GBooleanObject>(true));
  vs_assert(vs_throws([&] { a->crossOverWith(b); }), "individuals of different structure are not crossed");
}
VS_ENTRY(members) {
  auto a = std::make_shared<Ind>(); std::size_t n = vs_choice("n", 4); std::vector<SP *> sp; std::size_t sum = 0; bool any = false; static const char *CN[3] = {"c0", "c1", "c2"};
  for (std::size_t i = 0; i < n; ++i) { auto s = std::make_shared<SP>(); s->res = vs_u32(RN[i]); s->changed = vs_bool(CN[i]); any = any | s->changed; sum += s->res; sp.push_back(s.get()); a->push_back(s); }
  a->m_processing_status = processingStatus::PROCESSED; activityMode am = vs_choice("am", 2) ? activityMode::ACTIVEONLY : activityMode::ALLPARAMETERS; bool r = a->randomInit(am);
  vs_assert(r == any && a->is_due_for_processing() == any, "initialisation reports changes and marks changed individuals as due for processing"); for (auto *s : sp) vs_assert(s->inits == 1 && s->am == am, "each parameter is initialised exactly once");
  vs_assert(a->customAdaptions() == sum, "the number of adaptions is that of all parameters"); for (auto *s : sp) vs_assert(s->adapts == 1, "each parameter is adapted exactly once");
  std::uint32_t st = vs_u32("stalls"); a->updateAdaptorsOnStall(st); std::vector<boost::any> d; a->queryAdaptor("x", "y", d); for (auto *s : sp) vs_assert(s->told == 1 && s->n == st && s->asked == 1, "stalls and queries reach all adaptors");
}
static VS_NOINLINE double times(double a, double b) { return a * b; }
VS_ENTRY(combiners) {
  std::size_t n = 1 + vs_choice("n", 2); Ind *a = new Ind(n); a->m_processing_status = processingStatus::PROCESSED; static const double V[4] = {-2.5, 0., 3., 4.}; double f[2] = {0, 0}, w[2] = {0, 0}; static const char *FN_[2] = {"f0", "f1"}, *WN[2] = {"w0", "w1"}; std::vector<double> ws; std::size_t nw = 1 + vs_choice("nw", 2);
  for (std::size_t i = 0; i < n; ++i) { f[i] = V[vs_choice(FN_[i], 4)]; a->m_stored_results_cnt[i] = parameterset_processing_result(99., f[i]); } for (std::size_t i = 0; i < nw; ++i) { w[i] = V[vs_choice(WN[i], 4)]; ws.push_back(w[i]); }
  double s = f[0] + f[1], ab = std::fabs(f[0]) + std::fabs(f[1]), sq = times(f[0], f[0]) + times(f[1], f[1]), wq = times(w[0] * f[0], w[0] * f[0]) + times(w[1] * f[1], w[1] * f[1]);
  vs_assert(std::fabs(a->sumCombiner() - s) < 1e-9 && std::fabs(a->fabsSumCombiner() - ab) < 1e-9, "criteria are combined as the sum of their values or absolute values"); vs_assert(std::fabs(a->squaredSumCombiner() - std::sqrt(sq)) < 1e-9, "the squared sum of the criteria is the root of the sum of their squares");
  double g = 0; bool t = vs_throws([&] { g = a->weighedSquaredSumCombiner(ws); }); vs_assert(t == (nw != n), "each criterion needs a weight"); if (!t) vs_assert(std::fabs(g - std::sqrt(wq)) < 1e-9, "weights scale the criteria");
}
VS_ENTRY(take_over) {
  std::size_t n = vs_choice("n", 3), m = vs_choice("m", 3); Ind *a = new Ind, *b = new Ind; std::vector<GParameterBase *> q; for (std::size_t i = 0; i < n; ++i) a->push_back(std::make_shared<SP>()); for (std::size_t i = 0; i < m; ++i) { auto s = std::make_shared<SP>(); q.push_back(s.get()); b->push_back(s); }
  double r = fin("r"); b->m_processing_status = processingStatus::PROCESSED; b->m_stored_results_cnt[0] = parameterset_processing_result(r, r); a->cannibalize(*b); bool ok = a->size() == m; for (std::size_t i = 0; ok && i < m; ++i) ok = a->at(i).get() == q[i]; vs_assert(ok && b->size() == 0, "cannibalising takes over exactly the parameters of the other individual, which is left empty"); vs_assert(a->is_processed() && a->raw_fitness(0) == r, "cannibalising takes over the fitness");
  Ind *c = new Ind; c->push_back(std::make_shared<SP>()); GParameterBase *cq = c->at(0).get(); a->swap(*c); ok = a->size() == 1 && a->at(0).get() == cq && c->size() == m; for (std::size_t i = 0; ok && i < m; ++i) ok = c->at(i).get() == q[i]; vs_assert(ok && a->is_due_for_processing() && c->is_due_for_processing(), "swapping exchanges the parameters and nothing else");
}
