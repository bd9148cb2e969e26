// Contracts of swarm algorithms: personal, neighborhood and global bests, movement, evaluation and repair of neighborhoods.
// vs: link src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp 
// vs: bound up to 3 neighborhoods with up to 3 members, up to 2 parameters per individual
// vs: set fpuf=["fmul_f64","fadd_f64","fsub_f64","fdiv_f64"]
// vs: set ufmemo=1
// vs: set ufnan=1
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp"
#include "points.hpp"
using Alg = Gem::Geneva::GSwarmAlgorithm; using Tr = Gem::Geneva::GSwarmAlgorithm_PersonalityTraits;
static Tr *traits(const IP &p) { return static_cast<Tr *>(p->m_pt_ptr.get()); }
static VS_NOINLINE Alg *make(std::size_t nn, std::size_t dm, bool first) { Alg *a = new Alg(nn, dm); a->m_offset = 2; a->m_iteration = first ? 2 : 5; for (std::size_t i = 0; i < nn; ++i) a->m_n_neighborhood_members_cnt[i] = dm; return a; }
static VS_NOINLINE IP member(int k, double r, double t, maxMode m, std::size_t nb) {
  auto p = std::make_shared<EInd>(); p->m_maxmode = m; p->m_processing_status = processingStatus::PROCESSED; p->m_stored_results_cnt[0] = parameterset_processing_result(r, t); p->fit = r; p->tag = k; auto s = std::make_shared<Tr>(); s->setNeighborhood(nb); p->m_pt_ptr = s; return p;
}
// individuals with real parameters
static VS_NOINLINE IP point(int k, const double *x, std::size_t d, std::size_t nb) { IP p = member(k, 0, 0, maxMode::MINIMIZE, nb); for (std::size_t i = 0; i < d; ++i) p->push_back(std::make_shared<GDoubleObject>(x[i])); return p; }
VS_ENTRY(settings) {
  Alg *a = new Alg; std::size_t nn = vs_choice("nn", 3), dm = vs_choice("dm", 3) * 2; nn *= nn + 1; a->setSwarmSizes(nn, dm); std::size_t n = nn ? nn : 1, d = dm > 1 ? dm : 2;
  vs_assert(a->getNNeighborhoods() == n && a->getDefaultNNeighborhoodMembers() == d && a->getDefaultPopulationSize() == n * d, "there is at least one neighborhood with two members; the nominal population size follows"); 
  std::size_t cur = 0; for (std::size_t i = 0; i < n; ++i) cur += a->getCurrentNNeighborhoodMembers(i); vs_assert(cur == 0, "every neighborhood has a counter");
  a->setVelocityRangePercentage(vs_choice("percentage", 2) ? 0.5 : 1.); double c0 = vs_f64("c0"), c1 = vs_f64("c1"), c2 = vs_f64("c2"), c3 = vs_f64("c3"); std::uint32_t rt = vs_u32("rt"); bool rnd = vs_choice("random", 2); a->setCPersonal(c0); a->setCNeighborhood(c1); a->setCGlobal(c2); a->setCVelocity(c3); a->setRepulsionThreshold(rt); a->setUpdateRule(rnd ? updateRule::SWARM_UPDATERULE_LINEAR : updateRule::SWARM_UPDATERULE_CLASSIC); if (rnd) a->setNeighborhoodsRandomFillUp(true); else a->setNeighborhoodsEqualFillUp();
  Alg *b; if (vs_choice("how", 2)) b = new Alg(*a); else { b = new Alg; b->GObject::load(static_cast<const GObject &>(*a)); }
  for (Alg *x : {a, b}) { vs_assert(vs_same(x->getCPersonal(), c0) && vs_same(x->getCNeighborhood(), c1) && vs_same(x->getCGlobal(), c2) && vs_same(x->getCVelocity(), c3) && x->getRepulsionThreshold() == rt && x->neighborhoodsFilledUpRandomly() == rnd && x->getUpdateRule() == a->getUpdateRule() && vs_same(x->getVelocityRangePercentage(), a->getVelocityRangePercentage()), "settings are stored and copied");
    vs_assert(x->getNNeighborhoods() == n && x->getDefaultNNeighborhoodMembers() == d && x->getDefaultPopulationSize() == n * d && x->m_n_neighborhood_members_cnt.size() == n, "sizes are copied"); }
}
VS_ENTRY(velocity_percentage) {
  Alg *a = new Alg;  double p = vs_f64("percentage"); vs_assume(p == p); a->setVelocityRangePercentage(0.5); bool t = vs_throws([&] { a->setVelocityRangePercentage(p); }); vs_assert(t == ((p <= 0) | (p > 1)) && vs_same(a->getVelocityRangePercentage(), t ? 0.5 : p), "velocities are limited to a part of the value range");
}
VS_ENTRY(running_copies) {
  Alg *a = make(2, 2, false); double g = fin("g"), l0 = fin("l0"), l1 = fin("l1"); a->m_global_best_ptr = member(7, g, g, maxMode::MINIMIZE, 0); a->m_neighborhood_bests_cnt[0] = member(5, l0, l0, maxMode::MINIMIZE, 0); a->m_neighborhood_bests_cnt[1] = member(6, l1, l1, maxMode::MINIMIZE, 1); a->m_n_neighborhood_members_cnt[1] = 1;
  Alg *b; std::uint64_t how = vs_choice("how", 4); if (how == 0) b = new Alg(*a); else { b = how == 1 ? new Alg(3, 2) : how == 2 ? new Alg(2, 2) : make(2, 2, false); if (how == 3) { b->m_global_best_ptr = member(1, 0, 0, maxMode::MINIMIZE, 0); b->m_neighborhood_bests_cnt[0] = member(1, 0, 0, maxMode::MINIMIZE, 0); b->m_n_neighborhood_members_cnt[1] = 1; } b->GObject::load(static_cast<const GObject &>(*a)); }
  vs_assert(b->getNNeighborhoods() == 2 && b->m_n_neighborhood_members_cnt.size() == 2 && b->m_n_neighborhood_members_cnt[0] == 2 && b->m_n_neighborhood_members_cnt[1] == 1, "copies keep the neighborhoods");
  vs_assert(b->m_global_best_ptr && b->m_global_best_ptr != a->m_global_best_ptr && ind(b->m_global_best_ptr)->tag == 7 && (b->m_global_best_ptr->transformed_fitness(0) == g), "copies have their own global best");
  for (std::size_t i = 0; i < 2; ++i) vs_assert(b->m_neighborhood_bests_cnt[i] && b->m_neighborhood_bests_cnt[i] != a->m_neighborhood_bests_cnt[i] && ind(b->m_neighborhood_bests_cnt[i])->tag == int(5 + i) && (b->m_neighborhood_bests_cnt[i]->transformed_fitness(0) == (i ? l1 : l0)), "copies have their own neighborhood bests");
  vs_assert(ind(a->getBestNeighborhoodIndividual<GParameterSet>(1))->tag == 6 && vs_throws([&] { a->getBestNeighborhoodIndividual<GParameterSet>(2); }), "the best individual of each neighborhood is handed out");
  a->resetToOptimizationStart(); vs_assert(!a->m_global_best_ptr && a->m_neighborhood_bests_cnt.size() == 2 && !a->m_neighborhood_bests_cnt[0] && !a->m_neighborhood_bests_cnt[1] && a->m_velocities_cnt.empty() && a->m_n_neighborhood_members_cnt.size() == 2 && a->m_n_neighborhood_members_cnt[0] == 0, "a reset forgets what was found");
}
VS_ENTRY(positions_of_neighborhoods) {
  Alg *a = new Alg(3, 2); std::size_t c[3] = {vs_u32("c0"), vs_u32("c1"), vs_u32("c2")}; for (int i = 0; i < 3; ++i) a->m_n_neighborhood_members_cnt[i] = c[i]; std::size_t s = 0;
  for (std::size_t i = 0; i < 3; ++i) { vs_assert(a->getFirstNIPos(i) == s && a->getLastNIPos(i) == s + c[i], "neighborhoods follow each other"); s += c[i]; } vs_assert(vs_throws([&] { a->getFirstNIPos(3); }) && vs_throws([&] { a->getLastNIPos(3); }), "neighborhoods that do not exist have no position");
}
VS_ENTRY(adjust_population) {
  std::size_t nn = 1 + vs_choice("nn", 3), dm = 2 + vs_choice("dm", 2), def = nn * dm, n = vs_choice("n", def + 2); bool rnd = vs_choice("random", 2); Alg *a; if (vs_choice("set", 2)) { a = new Alg(1, 2); a->setSwarmSizes(nn, dm); } else a = new Alg(nn, dm); a->setNeighborhoodsRandomFillUp(rnd);
  for (std::size_t i = 0; i < n; ++i) a->push_back(member(int(i), 0, 0, maxMode::MINIMIZE, 0));
  bool t = vs_throws([&] { a->adjustPopulation_(); }); vs_assert(t == (n == 0), "at least one individual is needed"); if (t) return;
  vs_assert(a->size() == (n < def ? def : n), "the population is brought to its nominal size"); for (std::size_t i = 0; i < nn; ++i) vs_assert(a->getCurrentNNeighborhoodMembers(i) == dm + (i + 1 == nn && n > def ? n - def : 0), "each neighborhood has its nominal size, the last one takes what is left");
  if (n >= def) { for (std::size_t i = 0; i < n; ++i) vs_assert(ind(a->at(i))->tag == int(i) && eind(a->at(i))->inits == 0, "individuals that are there stay as they are"); return; }
  for (std::size_t k = 0; k < nn; ++k) { int base = n == 1 ? k > 0 : k >= n, keep = 0; for (std::size_t j = 0; j < dm; ++j) { EInd *p = eind(a->at(k * dm + j)); vs_assert(p->tag == (k < n ? int(k) : 0), "each individual given founds a neighborhood, in order, and missing founders come from the first individual"); keep += p->inits == base; vs_assert(p->inits == base || p->inits == base + 1, "individuals added are initialised once"); for (std::size_t l = 0; l < j; ++l) vs_assert(a->at(k * dm + l) != a->at(k * dm + j), "all individuals are distinct"); }
    vs_assert(keep == (rnd ? 1 : int(dm)), "the founder of a neighborhood keeps its values, the others are random if so requested"); }
}
VS_ENTRY(velocities) {
  std::size_t n = 1 + vs_choice("n", 2); bool half = vs_choice("percentage", 2); Alg *a = new Alg(2, 2); a->setVelocityRangePercentage(half ? 0.5 : 0.125); auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; double x[2] = {1., 0.25}; a->m_velocities_cnt.push_back(IP());
  for (std::size_t i = 0; i < n; ++i) { IP p = member(int(i), 0, 0, maxMode::MINIMIZE, 0); auto q = std::make_shared<GDoubleObject>(x[0]); q->setInitBoundaries(-3., 5.); p->push_back(q); q = std::make_shared<GDoubleObject>(x[1]); q->setInitBoundaries(0., 0.5); p->push_back(q); a->push_back(p); }
  a->init(); vs_assert(a->m_velocities_cnt.size() == n && a->m_dbl_vel_max_cnt.size() == 2 && a->m_neighborhood_bests_cnt.size() == 2, "each individual has a velocity"); double mx[2] = {half ? 4. : 1., half ? 0.25 : 0.0625};
  for (std::size_t k = 0; k < 2; ++k) { vs_assert(a->m_dbl_vel_max_cnt[k] == mx[k], "the maximum velocity is the requested part of the value range"); for (std::size_t i = 0; i < n; ++i) { double v = coord(a->m_velocities_cnt[i], k); vs_assert((v >= -mx[k]) & (v <= mx[k]), "velocities start inside of the allowed range"); vs_assert(coord(a->at(i), k) == x[k] && a->m_velocities_cnt[i] != a->at(i) && ind(a->at(i))->tag == int(i), "individuals are left alone"); } }
}
// the position of one individual changes by its velocity, which is drawn towards (or away from) the best positions known
static double towards(double best, double x, double c) { return (best - x) * c; }
VS_ENTRY(move) {
  std::size_t d = 1 + vs_choice("d", 2), nn = 1 + vs_choice("nn", 2); bool lin = vs_choice("linear", 2); Alg *a = make(nn, 2, false); a->setUpdateRule(lin ? updateRule::SWARM_UPDATERULE_LINEAR : updateRule::SWARM_UPDATERULE_CLASSIC); std::uint32_t rt = vs_u32("threshold"), st = vs_u32("stalls"); a->setRepulsionThreshold(rt); a->m_stallCounter = st;
  double c[4] = {small("cp"), small("cn"), small("cg"), small("cv")}, x[2], v[2], pb[2], nb[2], gb[2], nv[2]; static const char *xn[2] = {"x0", "x1"}, *vn[2] = {"v0", "v1"}, *pn[2] = {"p0", "p1"}, *nbn[2] = {"n0", "n1"}, *gn[2] = {"g0", "g1"};
  g_same_unit = true; g_unit = vs_ranged("unit", 0., 1.); vs_assume((g_unit >= 0) & (g_unit < 1)); g_nreal = 0;
  for (std::size_t i = 0; i < d; ++i) { x[i] = small(xn[i]); v[i] = small(vn[i]); pb[i] = small(pn[i]); nb[i] = small(nbn[i]); gb[i] = small(gn[i]); a->m_dbl_vel_max_cnt.push_back(1e6);
    nv[i] = v[i] * c[3] + towards(pb[i], x[i], c[0] * g_unit) + towards(nb[i], x[i], c[1] * g_unit); if (nn > 1) nv[i] = nv[i] + towards(gb[i], x[i], c[2] * g_unit); vs_assume((nv[i] <= 1e6) & (nv[i] >= -1e6)); }
  IP p = point(0, x, d, 0), vel = point(1, v, d, 0), nbest = point(2, nb, d, 0), gbest = point(3, gb, d, 0), pbest = point(4, pb, d, 0); traits(p)->registerPersonalBest(pbest); 
  a->updateIndividualPositions(0, p, nbest, gbest, vel, std::make_tuple(c[0], c[1], c[2], c[3])); g_same_unit = false;
  bool away = (rt != 0) & (st >= rt);
  for (std::size_t i = 0; i < d; ++i) { vs_assert(near(coord(vel, i), nv[i]), "the velocity is the old one scaled, plus the weighted distances to the personal, neighborhood and (for several neighborhoods) global best"); double up = plus(x[i], nv[i]), dn = minus(x[i], nv[i]); vs_assert(near(coord(p, i), away ? dn : up), "individuals move by their velocity, away from the bests as of the repulsion threshold"); vs_assert((coord(nbest, i) == nb[i]) & (coord(gbest, i) == gb[i]) & (coord(traits(p)->getPersonalBest(), i) == pb[i]), "the bests do not move"); }
  vs_assert(p->is_due_for_processing(), "individuals that have moved are due for processing"); vs_assert(g_nreal >= (lin ? 2 : 2 * int(d)), "each distance is weighted by a random number of its own");
  vs_assert(vs_throws([&] { a->updateIndividualPositions(0, IP(), nbest, gbest, vel, std::make_tuple(1., 1., 1., 1.)); }) && vs_throws([&] { a->updateIndividualPositions(0, p, IP(), gbest, vel, std::make_tuple(1., 1., 1., 1.)); }) && vs_throws([&] { a->updateIndividualPositions(0, p, nbest, IP(), vel, std::make_tuple(1., 1., 1., 1.)); }) && vs_throws([&] { a->updateIndividualPositions(0, p, nbest, gbest, IP(), std::make_tuple(1., 1., 1., 1.)); }), "empty individuals are refused");
}
// vs: entry move_all time=300
VS_ENTRY(move_all) { // which individual moves, with which velocity and towards which neighborhood's best
  std::size_t nn = 1 + vs_choice("nn", 2), dm = 2, n = nn * dm; bool first = vs_choice("first", 2); Alg *a = make(nn, dm, first); a->setUpdateRule(updateRule::SWARM_UPDATERULE_LINEAR); a->setRepulsionThreshold(0); a->setCPersonal(0.); a->setCGlobal(0.); a->setCVelocity(1.); a->setCNeighborhood(1.); g_same_unit = true; g_unit = 0.5; a->m_dbl_vel_max_cnt.push_back(1e6); bool skip[4]; static const char *sn[4] = {"s0", "s1", "s2", "s3"};
  for (std::size_t i = 0; i < n; ++i) { double x = double(i), v = 8. * double(i + 1); IP p = point(int(i), &x, 1, 3); skip[i] = vs_choice(sn[i], 2); if (skip[i]) traits(p)->setNoPositionUpdate(); if (!first) traits(p)->registerPersonalBest(point(50, &x, 1, 0)); a->push_back(p); a->m_velocities_cnt.push_back(point(20 + int(i), &v, 1, 0)); }
  for (std::size_t k = 0; k < nn && !first; ++k) { double b = 100. * double(k + 1); a->m_neighborhood_bests_cnt[k] = point(30 + int(k), &b, 1, k); } double gb = 1000.; if (!first) a->m_global_best_ptr = point(40, &gb, 1, 0); a->m_last_iteration_individuals_cnt.push_back(IP());
  a->updatePositions(); g_same_unit = false;
  vs_assert(a->m_last_iteration_individuals_cnt.size() == (first ? 0 : n), "the individuals of the last iteration are kept");
  for (std::size_t i = 0; i < n; ++i) { std::size_t k = i / dm; double x = double(i), nv = 8. * double(i + 1) + 0.5 * (100. * double(k + 1) - x); vs_assert(traits(a->at(i))->getNeighborhood() == k, "individuals know their neighborhood"); bool mv = !first && !skip[i];
    vs_assert(near(coord(a->at(i), 0), mv ? x + nv : x) && near(coord(a->m_velocities_cnt[i], 0), mv ? nv : 8. * double(i + 1)), "each individual moves once, with its own velocity and towards the best of its neighborhood, but never in the first iteration or when it was just created"); vs_assert(first || !traits(a->at(i))->noPositionUpdate(), "individuals are exempted for one iteration only"); if (!first) vs_assert(coord(a->m_last_iteration_individuals_cnt[i], 0) == x && a->m_last_iteration_individuals_cnt[i] != a->at(i) && a->m_last_iteration_individuals_cnt[i]->is_processed(), "what is kept of the last iteration are copies made before the move"); }
}
VS_ENTRY(prune) {
  std::size_t d = 1 + vs_choice("d", 3); Alg *a = new Alg(2, 2); std::vector<double> v; double o[3], mx[3]; static const char *vn[3] = {"v0", "v1", "v2"}, *mn[3] = {"m0", "m1", "m2"}; for (std::size_t i = 0; i < d; ++i) { o[i] = vs_ranged(vn[i], -50., 50.); mx[i] = vs_ranged(mn[i], -1., 20.); vs_assume((o[i] == o[i]) & (mx[i] == mx[i])); if (!vs_is_symbolic()) vs_assume(std::fabs(mx[i]) > 1e-3); v.push_back(o[i]); a->m_dbl_vel_max_cnt.push_back(mx[i]); }
  bool bad = false, over = false; double r = 0; for (std::size_t i = 0; i < d; ++i) { bad = bad | (mx[i] <= 0); if (!bad) { double q = over_(Gem::Common::gfabs(o[i]), mx[i]); bool ov = Gem::Common::gfabs(o[i]) > mx[i]; over = over | ov; vs_assume(!ov | (q > 1) | !vs_is_symbolic()); if (ov & (q > r)) set(r, q); } }
  bool t = vs_throws([&] { a->pruneVelocity(v); }); vs_assert(t == bad, "velocity limits must be positive"); if (t) return; vs_assert(v.size() == d, "velocities keep their size");
  for (std::size_t i = 0; i < d; ++i) { if (over) vs_assert(near(v[i], over_(o[i], r)), "a velocity that is too fast is scaled as a whole so that it fits the limits"); else vs_assert(vs_same(v[i], o[i]), "velocities within the limits are left alone"); if (!vs_is_symbolic()) vs_assert(std::fabs(v[i]) <= mx[i] * (1 + 1e-12), "velocities stay within their limits"); }
  v.push_back(0); vs_assert(vs_throws([&] { a->pruneVelocity(v); }), "each component needs a limit");
}
VS_ENTRY(evaluate) {
  std::size_t nn = 2, dm = 2, n = 4; bool first = vs_choice("first", 2); Alg *a = make(nn, dm, first); auto ex = std::make_shared<Exec>(); a->m_executor_ptr = ex; static const char *on[4] = {"o0", "o1", "o2", "o3"}; std::vector<IP> org; std::size_t good[2] = {0, 0};
  for (std::size_t i = 0; i < n; ++i) { IP p = member(int(i), double(i), double(i), maxMode::MINIMIZE, i / dm); ind(p)->outcome = int(vs_choice(on[i], 3)); if (ind(p)->outcome == O_OK) ++good[i / dm]; p->m_processing_status = i & 1 ? processingStatus::DO_PROCESS : processingStatus::PROCESSED; p->setAssignedIteration(a->getIteration()); org.push_back(p); a->push_back(p); }
  int late = first ? 0 : int(vs_choice("late", 3)); if (late) { IP p = member(4, 4., 4., maxMode::MINIMIZE, std::size_t(late - 1)); p->setAssignedIteration(1); ex->late.push_back(p); org.push_back(p); ++good[late - 1]; }
  a->runFitnessCalculation_(); vs_assert(ex->submitted == 4, "every individual is evaluated exactly once"); vs_assert(a->size() == good[0] + good[1], "individuals that were lost or failed leave the population, late ones join it");
  unsigned seen = 0; for (std::size_t i = 0; i < a->size(); ++i) { IP p = a->at(i); int tg = ind(p)->tag; vs_assert(p->is_processed() && tg >= 0 && std::size_t(tg) < org.size() && org[std::size_t(tg)] == p && !(seen >> tg & 1), "only evaluated individuals stay, each once"); seen |= 1u << tg; vs_assert(traits(p)->getNeighborhood() == std::size_t(i >= good[0]), "neighborhoods stay together"); vs_assert(p->getAssignedIteration() == a->getIteration(), "late individuals belong to the current iteration"); }
  for (std::size_t k = 0; k < 2; ++k) vs_assert(a->getCurrentNNeighborhoodMembers(k) == good[k], "the members of each neighborhood are counted"); vs_assert(a->getNProcessableItems_() == a->size(), "all individuals are processed in each iteration");
}
static double bst(double a, double b, maxMode m) { return better(a, b, m) ? a : b; }
VS_ENTRY(bests) {
  bool first = vs_choice("first", 2); maxMode m = mode(vs_choice("mode", 2)); std::size_t c[2] = {1 + vs_choice("c0", 2), 1}; c[1] = 3 - c[0]; std::size_t n = 3, who = first ? 0 : vs_choice("who", 3); Alg *a = make(2, 2, first); double r[4], t[4], pb[4], l[2], g = 0; static const char *tn[4] = {"t0", "t1", "t2", "t3"}, *pn[4] = {"p0", "p1", "p2", "p3"}; std::vector<IP> org;
  for (std::size_t i = 0; i < n; ++i) { r[i] = 100. + double(i); t[i] = fin(tn[i]); IP p = member(int(i), r[i], t[i], m, i >= c[0]); if (!first) { pb[i] = i == who ? fin(pn[i]) : t[i]; traits(p)->registerPersonalBest(member(10 + int(i), pb[i], pb[i], m, 0)); } org.push_back(p); a->push_back(p); } for (std::size_t k = 0; k < 2; ++k) a->m_n_neighborhood_members_cnt[k] = c[k];
  if (!first) { l[0] = fin("l0"); l[1] = fin("l1"); g = fin("g"); for (std::size_t k = 0; k < 2; ++k) { a->m_neighborhood_bests_cnt[k] = member(20 + int(k), l[k], l[k], m, k); vs_assume(!better(l[k], g, m)); } a->m_global_best_ptr = member(30, g, g, m, 0); }
  auto ret = a->findBests(); double it = t[0]; for (std::size_t i = 1; i < n; ++i) it = bst(t[i], it, m);
  vs_assert(std::get<1>(ret) == it, "the best fitness of the iteration is returned"); bool rawok = false; for (std::size_t i = 0; i < n; ++i) rawok = rawok | ((t[i] == it) & (r[i] == std::get<0>(ret))); vs_assert(rawok, "raw and transformed fitness belong to the same individual");
  for (std::size_t i = 0; i < n; ++i) { IP p = a->at(i); std::size_t o = std::size_t(ind(p)->tag); vs_assert(o < n && org[o] == p && (i >= c[0]) == (o >= c[0]), "individuals stay in their neighborhood"); for (std::size_t j = 0; j < i; ++j) vs_assert(a->at(j) != p, "nobody is lost"); if (i != 0 && i != c[0]) vs_assert(!better(p->transformed_fitness(0), a->at(i - 1)->transformed_fitness(0), m), "the best individuals of a neighborhood come first"); }
  for (std::size_t i = 0; i < n; ++i) { double w = first ? t[i] : bst(t[i], pb[i], m), q = std::get<1>(traits(org[i])->getPersonalBestQuality()); IP b = traits(org[i])->getPersonalBest(); vs_assert(q == w, "the personal best is the best fitness an individual has had"); vs_assert(b && b != org[i] && (b->transformed_fitness(0) == w), "the personal best is kept as a copy"); if (!first) { if (better(t[i], pb[i], m)) vs_assert(ind(b)->tag == int(i), "a better position becomes the personal best"); else if (better(pb[i], t[i], m)) vs_assert(ind(b)->tag == 10 + int(i), "the personal best is not replaced by something worse"); } }
  double gl = 0; for (std::size_t k = 0; k < 2; ++k) { double w = t[k ? c[0] : 0]; for (std::size_t i = k ? c[0] : 0; i < (k ? n : c[0]); ++i) w = bst(t[i], w, m); if (!first) w = bst(w, l[k], m); gl = k ? bst(w, gl, m) : w; IP b = a->m_neighborhood_bests_cnt[k]; vs_assert(b && (b->transformed_fitness(0) == w), "the neighborhood best is the best that the neighborhood has found"); for (std::size_t i = 0; i < n; ++i) vs_assert(b != org[i], "neighborhood bests are copies"); }
  if (!first) gl = bst(gl, g, m); vs_assert(a->m_global_best_ptr && (a->m_global_best_ptr->transformed_fitness(0) == gl), "the global best is the best found by all neighborhoods"); vs_assert(a->m_global_best_ptr != a->m_neighborhood_bests_cnt[0] && a->m_global_best_ptr != a->m_neighborhood_bests_cnt[1], "the global best is a copy");
}
VS_ENTRY(repair) {
  bool first = vs_choice("first", 2); std::size_t nn = 2, dm = 2, c[2] = {vs_choice("c0", 4), vs_choice("c1", 4)}; vs_assume(c[0] + c[1] > 0); Alg *a = make(nn, dm, first); std::vector<IP> org, last; for (std::size_t i = 0; i < c[0] + c[1]; ++i) { IP p = member(int(i), 0, 0, maxMode::MINIMIZE, i >= c[0]); org.push_back(p); a->push_back(p); } for (std::size_t k = 0; k < 2; ++k) a->m_n_neighborhood_members_cnt[k] = c[k];
  if (!first) for (std::size_t i = 0; i < 4; ++i) { last.push_back(member(10 + int(i), 0, 0, maxMode::MINIMIZE, i / dm)); a->m_last_iteration_individuals_cnt.push_back(last[i]); }
  a->adjustNeighborhoods(); vs_assert(a->size() == 4 && a->m_n_neighborhood_members_cnt[0] == dm && a->m_n_neighborhood_members_cnt[1] == dm && a->m_last_iteration_individuals_cnt.empty(), "all neighborhoods have their nominal size");
  for (std::size_t k = 0; k < 2; ++k) { std::size_t keep = c[k] < dm ? c[k] : dm, got = 0; for (std::size_t j = 0; j < dm; ++j) { IP p = a->at(k * dm + j); vs_assert(traits(p)->getNeighborhood() == k, "individuals belong to the neighborhood they are in"); bool isorg = false; for (std::size_t o = 0; o < keep; ++o) isorg |= p == org[k * c[0] + o]; if (isorg) ++got; else if (first) vs_assert(eind(p)->inits >= 1 && traits(p)->noPositionUpdate() && p->m_processing_status != processingStatus::DO_IGNORE, "in the first iteration missing individuals are random ones, which do not move in the next iteration"); else vs_assert(p == last[k * dm] || p == last[k * dm + 1], "missing individuals are replaced by those of the last iteration"); for (std::size_t i = 0; i < k * dm + j; ++i) vs_assert(a->at(i) != p, "all individuals are distinct"); } vs_assert(got == keep, "the best individuals of each neighborhood stay"); }
}
VS_ENTRY(personality) {
  Tr *t = new Tr; std::size_t k = vs_u64("neighborhood"); t->setNeighborhood(k); bool np = vs_choice("noupdate", 2); if (np) t->setNoPositionUpdate(); double f = fin("f"), g = fin("g"); IP p = member(1, f, g, maxMode::MINIMIZE, 0); bool has = vs_choice("best", 2); if (has) t->registerPersonalBest(p); else vs_assert(vs_throws([&] { t->getPersonalBest(); }), "there is no personal best before one was registered");
  Tr *u; if (vs_choice("how", 2)) u = new Tr(*t); else { u = new Tr; u->registerPersonalBest(member(2, 0, 0, maxMode::MINIMIZE, 0)); u->GObject::load(static_cast<const GObject &>(*t)); }
  for (Tr *x : {t, u}) { vs_assert(x->getNeighborhood() == k && x->noPositionUpdate() == np, "personality traits are copied"); if (has) vs_assert(x->getPersonalBest() != p && ind(x->getPersonalBest())->tag == 1 && !x->getPersonalBest()->m_pt_ptr && (std::get<0>(x->getPersonalBestQuality()) == f) & (std::get<1>(x->getPersonalBestQuality()) == g), "the personal best is a copy without a personality"); else vs_assert(!x->personal_best_, "no personal best is invented"); }
  if (has) vs_assert(t->getPersonalBest() != u->getPersonalBest(), "copies have their own personal best"); vs_assert(t->checkNoPositionUpdateAndReset() == np && !t->noPositionUpdate() && !t->checkNoPositionUpdateAndReset(), "the exemption holds once"); t->resetPersonalBest(); vs_assert(!t->personal_best_, "the personal best can be removed");
  p->m_processing_status = processingStatus::DO_PROCESS; vs_assert(vs_throws([&] { t->registerPersonalBest(p); }) && vs_throws([&] { t->registerPersonalBest(IP()); }), "only evaluated individuals become personal bests");
}
