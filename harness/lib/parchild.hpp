// Shared by the contracts of evolutionary algorithms and simulated annealing: adaption, evaluation and repair of the population.
// The including contract defines Alg (the algorithm) and Tr (its personality traits).
#pragma once
#include "alg.hpp"
#include "stubparam.hpp"
struct Fut { void *p[2]; };
extern "C" void vs_model_schedule(Fut *r, void *, std::vector<IP>::iterator *f, void *) { r->p[0] = r->p[1] = nullptr; (**f)->adapt(); }
extern "C" std::uint64_t vs_model_zero(void *) { return 0; }
static const char *FN[5] = {"f0", "f1", "f2", "f3", "f4"}, *GN[5] = {"g0", "g1", "g2", "g3", "g4"};
static Tr *traits(const IP &p) { return static_cast<Tr *>(p->m_pt_ptr.get()); }
static VS_NOINLINE IP member(int k, double f, maxMode m, bool parent, std::size_t ncrit = 1, double g = 0) {
  auto p = std::make_shared<EInd>(ncrit); p->m_maxmode = m; p->m_processing_status = processingStatus::PROCESSED; p->m_stored_results_cnt[0] = parameterset_processing_result(raw_of(f), f); if (ncrit > 1) p->m_stored_results_cnt[1] = parameterset_processing_result(raw_of(g), g);
  p->fit = f; p->fit2 = g; p->tag = k; auto t = std::make_shared<Tr>(); if (parent) t->setIsParent(); else t->setIsChild(); p->m_pt_ptr = t; return p;
}
static VS_NOINLINE Alg *make(std::size_t np, std::size_t nc, bool first) { Alg *a = new Alg; a->setPopulationSizes(np + nc, np); a->m_default_n_children = nc; a->m_offset = 0; a->m_iteration = first ? 0 : 3; return a; }
VS_ENTRY(stalls) {
  std::size_t np = 1 + vs_choice("np", 3), nc = 3; Alg *a = make(np, nc, false); std::vector<SP *> sp; a->m_stallCounter = std::uint32_t(vs_u32("stalls"));
  for (std::size_t i = 0; i < np + nc; ++i) { IP p = member(int(i), double(i), maxMode::MINIMIZE, i < np); auto s = std::make_shared<SP>(); sp.push_back(s.get()); p->push_back(s); a->push_back(p); }
  std::uint32_t st = a->m_stallCounter; a->actOnStalls_(); for (std::size_t i = 0; i < np + nc; ++i) { bool e = (i >= 1) & (i < np); vs_assert(sp[i]->told == int(e) && (!e || sp[i]->n == st), "the adaptors of all parents except the best one are told about stalls, exactly once"); }
}
VS_ENTRY(start) {
  std::size_t np = 1 + vs_choice("np", 3), n = 2 + vs_choice("n", 4), more = vs_choice("more", 2); Alg *a = make(np, n > np ? n - np : 0, true); a->setPopulationSizes(n, np); a->m_default_n_children = 77; auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex;
  for (std::size_t i = 0; i < n + more; ++i) a->push_back(member(int(i), double(i), maxMode::MINIMIZE, vs_choice("parent", 2)));
  bool bad = vs_throws([&] { a->populationSanityChecks_(); }); bool t = vs_throws([&] { a->G_OptimizationAlgorithm_ParChild::init(); }); vs_assert(t == bad, "optimisations start only with populations that are large enough"); if (t) return;
  vs_assert(a->getDefaultNChildren() == n - np, "the nominal number of children is what the population size leaves for them"); for (std::size_t i = 0; i < np; ++i) vs_assert(traits(a->at(i))->isParent(), "the first individuals start as parents"); vs_assert(a->m_executor_ptr.get() == ex.get(), "a registered executor is kept");
}
VS_ENTRY(adapt) {
  std::size_t np = 1 + vs_choice("np", 2), nc = 1 + vs_choice("nc", 2); Alg *a = make(np, nc, false); if (vs_is_symbolic()) a->m_tp_ptr.reset(new Gem::Common::GThreadPool(2)); else { static auto tp = std::make_shared<Gem::Common::GThreadPool>(2); a->m_tp_ptr = tp; }
  nc += vs_choice("extra", 2); // more than the nominal number of children
  for (std::size_t i = 0; i < np + nc; ++i) a->push_back(member(int(i), double(i), maxMode::MINIMIZE, i < np)); a->adaptChildren_();
  for (std::size_t i = 0; i < np + nc; ++i) vs_assert(ind(a->at(i))->adapted == int(i >= np) && a->at(i)->is_due_for_processing() == (i >= np), "each child is adapted exactly once and due for processing afterwards, parents are not adapted");
}
VS_ENTRY(evaluate) {
  std::size_t np = 1 + vs_choice("np", 2), nc = 2, n = np + nc; bool first = vs_choice("first", 2); Alg *a = make(np, nc, first); auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; static const char *on[4] = {"o0", "o1", "o2", "o3"}; std::vector<IP> org; std::size_t good = 0, lo = first ? 0 : np;
  for (std::size_t i = 0; i < n; ++i) { IP p = member(int(i), double(i), maxMode::MINIMIZE, i < np); if (i >= lo) { ind(p)->outcome = int(vs_choice(on[i], 3)); p->m_processing_status = processingStatus::DO_PROCESS; if (ind(p)->outcome == O_OK) ++good; } else ++good; p->setAssignedIteration(a->getIteration()); org.push_back(p); a->push_back(p); }
  bool late = vs_choice("late", 2), lpar = late && vs_choice("late_parent", 2); if (late) { IP p = member(4, 4., maxMode::MINIMIZE, lpar); p->setAssignedIteration(1); ex->late.push_back(p); }
  std::size_t add = late & !lpar; bool t = vs_throws([&] { a->runFitnessCalculation_(); });
  vs_assert(ex->submitted == int(n - lo), "the children, and in the first iteration the parents, are evaluated exactly once"); vs_assert(t == (good + add == 0), "the algorithm continues as long as one individual is left"); if (t) return;
  std::size_t m = good + add; vs_assert(a->size() == (m < n ? n : m), "lost individuals are replaced, late ones are added");
  unsigned seen = 0; for (std::size_t i = 0; i < a->size(); ++i) { IP p = a->at(i); int tg = ind(p)->tag; vs_assert(p->is_processed(), "only evaluated individuals take part in the selection"); bool isorg = tg < 4 ? std::size_t(tg) < n && p.get() == org[std::size_t(tg)].get() : p.get() == ex->late[0].get(); if (i < m) { vs_assert(isorg && !(seen >> tg & 1), "all individuals that were evaluated are kept"); seen |= 1u << tg; } else vs_assert(!isorg && tg == ind(a->at(m - 1))->tag, "missing individuals are replaced by copies"); if (tg == 4) vs_assert(!lpar && p->getAssignedIteration() == a->getIteration(), "late children join the current iteration, late parents are dropped"); vs_assert(traits(p)->isParent() == (i < (np < good ? np : good)), "the first individuals are marked as parents, all others as children"); }
  std::size_t gp = 0; for (std::size_t i = 0; i < np; ++i) if (seen >> i & 1) { vs_assert(ind(a->at(gp))->tag == int(i), "parents stay in front, in their order"); ++gp; }
}
VS_ENTRY(evaluate_big) { // native only
  std::size_t np = 1 + vs_choice("np", 8), nc = 10 + vs_choice("nc", 12), n = np + nc; Alg *a = make(np, nc, false); auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; for (std::size_t i = 0; i < n; ++i) { IP p = member(int(i), double(i), maxMode::MINIMIZE, i < np); if (i >= np) { ind(p)->outcome = int(vs_choice("o", 6)) == 5 ? 1 : 0; p->m_processing_status = processingStatus::DO_PROCESS; } a->push_back(p); }
  a->runFitnessCalculation_(); for (std::size_t i = 0; i < np; ++i) vs_assert(ind(a->at(i))->tag == int(i), "parents stay in front, in their order");
}
// vs: entry evaluate_big sym=0
