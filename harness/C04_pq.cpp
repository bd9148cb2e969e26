// Contracts of the fixed-size priority queue (GFixedSizePriorityQueueT): sorted, unique, bounded, keeps exactly the best.
// vs: link src/common/GCommonHelperFunctions.cpp src/common/GCommonMathHelperFunctions.cpp src/common/GExpectationChecksT.cpp
// vs: nlink src/common/GLogger.cpp src/common/GThreadGroup.cpp src/common/GParserBuilder.cpp src/common/GCommonEnums.cpp
// vs: bound queues of up to 2 (add of 1 or 2) items before the operation, maximum sizes 0 (unlimited) to 3, item ids from 4 names
#include "common/GFixedSizePriorityQueueT.hpp"
#include "vs.hpp"
using namespace Gem::Common;
struct Item : GCommonInterfaceT<Item> {
  double ev = 0; int nm = 0; int copies = 0;
  template <typename A> void serialize(A &, unsigned) {}
  std::string name_() const override { return "Item"; }
  void load_(const Item *o) override { ev = o->ev; nm = o->nm; copies = o->copies + 1; }
  void compare_(const Item &, const expectation &, const double &) const override {}
  Item *clone_() const override { Item *r = new Item; r->load_(this); return r; }
  bool modify_GUnitTests_() override { return false; }
  void specificTestsNoFailureExpected_GUnitTests_() override {}
  void specificTestsFailuresExpected_GUnitTests_() override {}
  void addConfigurationOptions_(GParserBuilder &) override {}
};
struct PQ : GFixedSizePriorityQueueT<Item> {
  using B = GFixedSizePriorityQueueT<Item>;
  using B::B;
  double evaluation(const std::shared_ptr<Item> &i) const override { return i->ev; }
  std::string id(const std::shared_ptr<Item> &i) const override { return std::string(1, char('a' + i->nm)); }
  PQ *clone_() const override { return nullptr; }
};
static bool better(bool max, double a, double b) { return max ? a > b : a < b; }
static double g_ev[4];                                          // evaluation of the items by id: the same id means the same item
static VS_NOINLINE std::shared_ptr<Item> item(int nm) { auto i = std::make_shared<Item>(); i->nm = nm; i->ev = g_ev[nm]; return i; }
static VS_NOINLINE void evals() {
  for (int i = 0; i < 4; ++i) { g_ev[i] = vs_f64("evaluation"); vs_assume((g_ev[i] > -1.7e308) & (g_ev[i] < 1.7e308)); }
}
// fills an empty queue: 0 items, item 0, or items 0 and 1, best first
static VS_NOINLINE std::size_t fill(PQ &q, std::size_t n, bool max) {
  if (n > 1) vs_assume(!better(max, g_ev[1], g_ev[0]));
  for (std::size_t i = 0; i < n; ++i) q.add(item(int(i)), false);
  return n;
}
// the queue after adding the items named by in[0..k) to the items old[0..n)
static VS_NOINLINE void post(PQ &q, bool max, std::size_t cap, const bool *cand, bool cloned_new, const bool *old) {
  auto v = q.toVector();
  std::size_t uni = 0; for (int i = 0; i < 4; ++i) uni += cand[i];
  vs_assert(v.size() == q.size() && q.empty() == v.empty(), "the size agrees with the content");
  vs_assert(v.size() == (cap && uni > cap ? cap : uni), "the queue holds all candidates, up to its maximum size");
  bool in[4] = {false, false, false, false};
  for (std::size_t i = 0; i < v.size(); ++i) {
    int m = v[i]->nm;
    vs_assert(m >= 0 && m < 4 && cand[m], "every entry is one of the candidates");
    vs_assert(!in[m], "no id is present twice"); in[m] = true;
    vs_assert(v[i]->ev == g_ev[m], "entries keep their evaluation");
    if (cloned_new && !old[m]) vs_assert(v[i]->copies == 1, "items are cloned on request");
    if (!cloned_new) vs_assert(v[i]->copies == 0, "items are not cloned unless requested");
  }
  for (std::size_t i = 0; i + 1 < v.size(); ++i) vs_assert(!better(max, v[i + 1]->ev, v[i]->ev), "entries are sorted, the best first");
  for (int i = 0; i < 4; ++i)
    if (cand[i] && !in[i]) vs_assert(!better(max, g_ev[i], v.back()->ev), "no dropped candidate is better than a kept one");
  if (!v.empty()) { vs_assert(q.best() == v.front() && q.worst() == v.back(), "best() and worst() are the first and the last entry"); }
}
static VS_NOINLINE void single(bool max) {
  evals();
  PQ q(0, max ? sortOrder::HIGHERISBETTER : sortOrder::LOWERISBETTER);
  std::size_t n = fill(q, vs_choice("n", 3), max), cap = vs_choice("cap", 4);
  vs_assume(!cap || n <= cap);
  q.setMaxSize(cap ? cap : 100); if (!cap) q = PQ(0, max ? sortOrder::HIGHERISBETTER : sortOrder::LOWERISBETTER), fill(q, n, max);
  int m = int(vs_choice("new", 3)); bool cl = vs_choice("clone", 2);
  bool cand[4] = {n > 0, n > 1, false, false}; bool old[4] = {n > 0, n > 1, false, false}; cand[m] = true;
  if (old[m]) cl = false;
  q.add(item(m), cl);
  post(q, max, cap, cand, cl, old);
}
VS_ENTRY(add_min) { single(false); }
VS_ENTRY(add_max) { single(true); }
static VS_NOINLINE void several(bool max, bool replace) {
  evals();
  const auto so = max ? sortOrder::HIGHERISBETTER : sortOrder::LOWERISBETTER;
  std::size_t cap = vs_choice("cap", 4);
  PQ q(cap, so);
  std::size_t n = vs_choice("n", 3); vs_assume(!cap || n <= cap); fill(q, n, max);
  int a = int(vs_choice("a", 4)), b = int(vs_choice("b", 4)); bool cl = vs_choice("clone", 2);
  std::vector<std::shared_ptr<Item>> in; in.push_back(item(a)); in.push_back(item(b));
  bool old[4] = {!replace && n > 0, !replace && n > 1, false, false}; bool cand[4] = {old[0], old[1], old[2], old[3]}; cand[a] = cand[b] = true;
  if (old[a] || old[b]) cl = false;
  q.add(in, cl, replace);
  post(q, max, cap, cand, cl, old);
}
VS_ENTRY(add_several_min) { several(false, false); }
VS_ENTRY(add_several_max) { several(true, false); }
VS_ENTRY(replace_min) { several(false, true); }
VS_ENTRY(replace_max) { several(true, true); }
VS_ENTRY(shrink_pop_clear) {
  evals();
  PQ q(0, sortOrder::LOWERISBETTER);
  vs_assume(g_ev[0] < g_ev[1]);
  fill(q, 2, false);
  std::size_t c = vs_choice("max", 4);
  q.setMaxSize(c);
  vs_assert(q.getMaxSize() == c, "setMaxSize stores the maximum size");
  std::size_t left = c == 1 ? 1 : 2;
  vs_assert(q.size() == left, "shrinking drops exactly the surplus (0 means unlimited)");
  vs_assert(q.best()->ev == g_ev[0], "shrinking keeps the best");
  auto b = q.pop();
  vs_assert(b->ev == g_ev[0] && q.size() == left - 1, "pop() removes and returns the best item");
  q.clear();
  vs_assert(q.empty() && q.size() == 0, "clear() empties the queue");
  vs_assert(vs_throws([&] { (void)q.best(); }) && vs_throws([&] { (void)q.worst(); }) && vs_throws([&] { (void)q.pop(); }), "access to an empty queue throws");
}
VS_ENTRY(copy_semantics) {
  evals();
  PQ q(2, sortOrder::LOWERISBETTER); vs_assume(g_ev[0] < g_ev[1]);
  std::size_t n = fill(q, vs_choice("n", 3), false);
  PQ c(q); PQ d(7, sortOrder::HIGHERISBETTER);
  { std::size_t k = vs_choice("prefilled", 3); if (k > 0) d.add(item(3), false); if (k > 1) d.add(item(2), false); }
  if (vs_choice("by load", 2)) d.load_(&q); else d = q;
  for (PQ *x : {&c, &d}) {
    auto v = x->toVector(); auto w = q.toVector();
    vs_assert(x->getMaxSize() == 2 && x->getSortOrder() == sortOrder::LOWERISBETTER && v.size() == n && w.size() == n, "copies have the same size, maximum size and order");
    for (std::size_t i = 0; i < n; ++i) { vs_assert(v[i] != w[i], "copies do not share entries"); vs_assert(v[i]->nm == w[i]->nm && v[i]->ev == w[i]->ev, "copies hold equal entries"); }
  }
  PQ m(std::move(c));
  vs_assert(m.size() == n && m.getMaxSize() == 2 && c.empty(), "moving transfers the content");
}
