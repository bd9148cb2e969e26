// Contracts of the containers of Gem::Common and of the functions copying smart pointers, containers and arrays.
// vs: bound containers of up to three items of two types (loops over the items of a container are unrolled for these sizes)
// vs: nlink src/common/GCommonHelperFunctions.cpp src/common/GExceptions.cpp src/common/GLogger.cpp src/common/GThreadGroup.cpp src/common/GExpectationChecksT.cpp src/common/GCommonEnums.cpp src/common/GParserBuilder.cpp src/common/GCommonMathHelperFunctions.cpp
#include "common/GCommonInterfaceT.hpp"
#include "common/GPtrVectorT.hpp"
#include "common/GPODVectorT.hpp"
#include "common/GCommonHelperFunctionsT.hpp"
#include <deque>
#include "vs.hpp"
using namespace Gem::Common;
static VS_NOINLINE int ch(const char *n, int lo, int hi) { return lo + (int)vs_choice(n, hi - lo + 1); }
struct Item : GCommonInterfaceT<Item> {
  int v = 0;
  Item() = default;
  explicit Item(int x) : v(x) {}
  Item(const Item &) = default;
  virtual ~Item() = default;
  virtual int extra() const { return 0; }
  virtual int kind() const { return 1; }
  void load_(const Item *p) override { vs_assert(p != this, "an object is not loaded into itself"); v = p->v; }
  Item *clone_() const override { return new Item(*this); }
  void compare_(const Item &cp, const expectation &e, const double &) const override {
    bool eq = (v == cp.v) & (extra() == cp.extra());
    if (e == expectation::EQUALITY ? !eq : eq) throw g_expectation_violation("differs");
  }
  bool modify_GUnitTests_() override { return false; } void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {}
};
struct Sub : Item {
  int w = 0;
  Sub() = default;
  Sub(int x, int y) : Item(x), w(y) {}
  int extra() const override { return w; }
  int kind() const override { return 2; }
  void load_(const Item *p) override { vs_assert(p->kind() == 2, "only objects of the same type are loaded"); Item::load_(p); w = static_cast<const Sub *>(p)->w; }
  Item *clone_() const override { return new Sub(*this); }
};
using P = std::shared_ptr<Item>;
struct PV : GPtrVectorT<Item, Item> { using GPtrVectorT<Item, Item>::operator=; PV() = default; PV(const PV &) = default; PV &operator=(const PV &) = default; };
struct IV : GPODVectorT<int> { IV() = default; };
enum { NUL, ITEM, SUB };
static P make(int kind) {
  if (kind == NUL) return P();
  int v = vs_i32("v");
  return kind == ITEM ? P(new Item(v)) : P(new Sub(v, vs_i32("w")));
}
// what is known of a position of a container: the object and its contents
struct Ghost { Item *p; int kind, v, w; };
static Ghost ghost(const P &p) { return p ? Ghost{p.get(), p->kind(), p->v, p->extra()} : Ghost{nullptr, NUL, 0, 0}; }
template <class C> static std::vector<Ghost> ghosts(const C &c) { std::vector<Ghost> r; for (auto it = c.begin(); it != c.end(); ++it) r.push_back(ghost(*it)); return r; }
static bool same_contents(const Ghost &a, const Ghost &b) { return (a.kind == b.kind) & (a.v == b.v) & (a.w == b.w); }
static bool same_object(const Ghost &a, const Ghost &b) { return (a.p == b.p) & same_contents(a, b); }
template <class F> static bool all2(const std::vector<Ghost> &a, const std::vector<Ghost> &b, F f) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (std::size_t i = 0; i < a.size(); i++) r = r & f(a[i], b[i]);
  return r;
}
static bool distinct(const std::vector<Ghost> &a, const std::vector<Ghost> &b) { bool r = true; for (auto &x : a) for (auto &y : b) r = r & ((x.p == nullptr) | (x.p != y.p)); return r; }
static bool selfdistinct(const std::vector<Ghost> &a) { bool r = true; for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < i; j++) r = r & ((a[i].p == nullptr) | (a[i].p != a[j].p)); return r; }
template <class C> static void fill(C &c, int n, int lo) { for (int i = 0; i < n; i++) c.insert(c.end(), make(ch("kind", lo, SUB))); }

template <class C, class F> static void copy_contract(F f) {
  C from, to;
  fill(from, ch("from", 0, 2), NUL);
  fill(to, ch("to", 0, 2), NUL);
  auto f0 = ghosts(from);
  f(from, to);
  auto f1 = ghosts(from), t1 = ghosts(to);
  vs_assert(all2(f0, f1, same_object), "copying does not change the source");
  vs_assert(all2(f0, t1, same_contents), "a copy has the items of the source, with the same types and values, whatever the target held before");
  vs_assert(distinct(t1, f1) & selfdistinct(t1), "a copy shares no items with its source");
}
VS_ENTRY(copy_vector) { copy_contract<std::vector<P>>([](std::vector<P> &a, std::vector<P> &b) { copyCloneableSmartPointerContainer(a, b); }); }
VS_ENTRY(copy_deque) { copy_contract<std::deque<P>>([](std::deque<P> &a, std::deque<P> &b) { copyCloneableSmartPointerContainer(a, b); }); }
VS_ENTRY(copy_ptr_vector) {
  int op = ch("op", 0, 2);
  PV from; fill(from.m_data_cnt, ch("from", 0, 2), NUL);
  auto f0 = ghosts(from);
  PV *to = nullptr;
  if (op == 0) to = new PV(from);
  else {
    to = new PV(); fill(to->m_data_cnt, ch("to", 0, 2), NUL);
    if (op == 1) *to = from; else *to = from.m_data_cnt;
  }
  auto f1 = ghosts(from), t1 = ghosts(*to);
  vs_assert(all2(f0, f1, same_object), "copying does not change the source");
  vs_assert(all2(f0, t1, same_contents), "a copy has the items of the source, with the same types and values, whatever the target held before");
  vs_assert(distinct(t1, f1) & selfdistinct(t1), "a copy shares no items with its source");
}
VS_ENTRY(copy_pointer) {
  P from = make(ch("from", NUL, SUB)), to = make(ch("to", NUL, SUB));
  auto f0 = ghost(from);
  copyCloneableSmartPointer(from, to);
  vs_assert(same_object(f0, ghost(from)), "copying does not change the source");
  vs_assert(same_contents(f0, ghost(to)), "a copy has the type and the values of the source");
  vs_assert((!from) | (from != to), "a copy shares nothing with its source");
}
VS_ENTRY(data_copy) {
  PV c; fill(c, ch("n", 0, 3), ITEM);
  std::vector<P> to; fill(to, ch("to", 0, 1), ITEM);
  auto c0 = ghosts(c);
  c.getDataCopy(to);
  vs_assert(all2(c0, ghosts(c), same_object), "getDataCopy() does not change the container");
  vs_assert(all2(c0, ghosts(to), same_contents) & distinct(ghosts(to), c0), "getDataCopy() supplies clones of all items");
  if (c.empty()) return;
  std::size_t pos = ch("pos", 0, c.size() - 1);
  bool want_sub = ch("as", 0, 1), ok = true;
  P r;
  try { if (want_sub) r = c.clone_at<Sub>(pos); else r = c.clone_at<Item>(pos); } catch (gemfony_exception &) { ok = false; }
  vs_assert(ok == (!want_sub | c0[pos].kind == SUB), "clone_at() refuses conversions to foreign types");
  if (ok) vs_assert(same_contents(ghost(r), c0[pos]) & r.get() != c0[pos].p, "clone_at() supplies a clone of the item at the given position");
}
// every operation that changes the sequence of items
VS_ENTRY(sequence) {
  PV c; fill(c, ch("n", 0, 2), ITEM);
  P item = make(ch("item", NUL, SUB));
  std::size_t n = c.size();
  auto want = ghosts(c); Ghost g = ghost(item);
  Ghost clone = g; clone.p = nullptr; // "some other object"
  bool refuse = false, threw = false;
  int op = ch("op", 0, 16);
  std::size_t pos = n ? ch("pos", 0, n) : 0, amount = 0;
  auto at = [&] { return c.begin() + pos; };
  auto ins = [&](std::size_t p, std::size_t k, const Ghost &x) { want.insert(want.begin() + p, k, x); };
  if (op >= 6 && op <= 13) amount = ch("amount", 0, 3);
  try {
    switch (op) {
    case 0: refuse = !item; if (!refuse) ins(n, 1, g); c.push_back(item); break;
    case 1: refuse = !item; if (!refuse) ins(n, 1, g); c.push_back_noclone(item); break;
    case 2: refuse = !item; if (!refuse) ins(n, 1, clone); c.push_back_clone(item); break;
    case 3: refuse = !item; if (!refuse) ins(pos, 1, g); vs_assert((c.insert(at(), item) - c.begin() == (long)pos) & !refuse, "insert() returns the position of the new item"); break;
    case 4: refuse = !item; if (!refuse) ins(pos, 1, g); vs_assert((c.insert_noclone(at(), item) - c.begin() == (long)pos) & !refuse, "insert_noclone() returns the position of the new item"); break;
    case 5: refuse = !item; if (!refuse) ins(pos, 1, clone); vs_assert((c.insert_clone(at(), item) - c.begin() == (long)pos) & !refuse, "insert_clone() returns the position of the new item"); break;
    case 6: refuse = !item; if (!refuse) ins(pos, amount, clone); c.insert(at(), amount, item); break;
    case 7: refuse = !item; if (!refuse) ins(pos, amount, clone); c.insert_clone(at(), amount, item); break;
    case 8: refuse = !item; if (!refuse & amount > 0) { ins(pos, amount, clone); want[pos] = g; } c.insert_noclone(at(), amount, item); break;
    case 9: refuse = n == 0 && amount > 0;
      if (amount <= n) want.resize(amount); else if (!refuse) { Ghost f = want[0]; f.p = nullptr; ins(n, amount - n, f); }
      c.resize(amount); break;
    case 10: case 11: case 12: refuse = amount > n && !item;
      if (amount <= n) want.resize(amount); else if (!refuse) { ins(n, amount - n, clone); if (op == 12) want.back() = g; }
      if (op == 10) c.resize(amount, item); else if (op == 11) c.resize_clone(amount, item); else c.resize_noclone(amount, item);
      break;
    case 13: { Ghost e{nullptr, NUL, 0, 0}; want.resize(amount, e); c.resize_empty(amount); break; }
    case 14: if (n) { want.pop_back(); c.pop_back(); } break;
    case 15: if (n) { if (pos < n) { want.erase(want.begin() + pos); auto it = c.erase(at()); vs_assert(it - c.begin() == (long)pos, "erase() returns the position of the next item"); } else { want.clear(); c.erase(c.begin(), c.end()); } } break;
    case 16: want.clear(); c.clear(); break;
    }
  } catch (gemfony_exception &) { threw = true; }
  vs_assert(threw == refuse, "empty pointers are refused, and nothing else");
  auto have = ghosts(c);
  vs_assert(have.size() == want.size(), "the container holds the requested number of items");
  bool ok = true;
  for (std::size_t i = 0; i < have.size(); i++) ok = ok & same_contents(have[i], want[i]) & ((want[i].p == nullptr) | (have[i].p == want[i].p));
  vs_assert(ok, "every position of the container holds the expected item");
  bool fresh = true; // clones are new objects
  for (std::size_t i = 0; i < have.size(); i++) for (std::size_t j = 0; j < have.size(); j++) fresh = fresh & ((want[i].p != nullptr) | (i == j) | (have[i].p == nullptr) | (have[i].p != have[j].p));
  for (std::size_t i = 0; i < have.size(); i++) fresh = fresh & ((want[i].p != nullptr) | (have[i].p == nullptr) | (have[i].p != item.get()));
  vs_assert(fresh, "clones are objects of their own");
  vs_assert(same_object(ghost(item), g), "the argument is not changed");
}
VS_ENTRY(cross_over) {
  PV a, b; fill(a, ch("a", 0, 3), ITEM); for (int i = 0, n = ch("b", 0, 3); i < n; i++) b.push_back(make(ITEM));
  auto wa = ghosts(a), wb = ghosts(b);
  std::size_t pos = ch("pos", 0, 3), m = std::min(wa.size(), wb.size());
  bool threw = vs_throws([&] { a.crossOver(b, pos); });
  vs_assert(threw == (pos >= m), "positions outside of one of the containers are refused");
  if (!threw) {
    std::vector<Ghost> ta(wa.begin() + pos, wa.end()), tb(wb.begin() + pos, wb.end());
    wa.resize(pos); wb.resize(pos);
    wa.insert(wa.end(), tb.begin(), tb.end()); wb.insert(wb.end(), ta.begin(), ta.end());
  }
  vs_assert(all2(wa, ghosts(a), same_object) & all2(wb, ghosts(b), same_object), "cross-over exchanges the items from the given position on");
}
VS_ENTRY(cross_over_pod) {
  IV a, b;
  for (int i = 0, n = ch("a", 0, 3); i < n; i++) a.push_back(vs_i32("x"));
  for (int i = 0, n = ch("b", 0, 3); i < n; i++) b.push_back(vs_i32("y"));
  std::vector<int> wa = a.m_data_cnt, wb = b.m_data_cnt;
  std::size_t pos = ch("pos", 0, 3), m = std::min(wa.size(), wb.size());
  bool threw = vs_throws([&] { a.crossOver(b, pos); });
  vs_assert(threw == (pos >= m), "positions outside of one of the containers are refused");
  if (!threw) {
    std::vector<int> ta(wa.begin() + pos, wa.end()), tb(wb.begin() + pos, wb.end());
    wa.resize(pos); wb.resize(pos);
    wa.insert(wa.end(), tb.begin(), tb.end()); wb.insert(wb.end(), ta.begin(), ta.end());
  }
  bool ok = (wa.size() == a.size()) & (wb.size() == b.size());
  vs_assert(ok, "cross-over exchanges the numbers of items behind the given position");
  for (std::size_t i = 0; i < wa.size(); i++) ok = ok & (wa[i] == a.at(i));
  for (std::size_t i = 0; i < wb.size(); i++) ok = ok & (wb[i] == b.at(i));
  vs_assert(ok, "cross-over exchanges the values from the given position on");
}
VS_ENTRY(views) {
  PV c; fill(c, ch("n", 0, 3), ITEM);
  auto g = ghosts(c);
  std::vector<Item *> want;
  for (auto &x : g) if (x.kind == SUB) want.push_back(x.p);
  std::vector<std::shared_ptr<Sub>> view;
  c.attachViewTo(view);
  bool ok = view.size() == want.size();
  vs_assert(ok, "a view has the number of items of the given type");
  for (std::size_t i = 0; i < want.size(); i++) ok = ok & (view[i].get() == want[i]);
  vs_assert(ok, "a view has the items of the given type in their order");
  PV::conversion_iterator<Sub> it(c.end());
  std::size_t i = 0;
  for (it = c.begin(); it != c.end(); ++it) {
    ok = i < want.size();
    vs_assert(ok, "the conversion iterator visits no other items");
    vs_assert((*it).get() == want[i], "the conversion iterator visits the items of the given type in their order");
    i++;
  }
  vs_assert(i == want.size(), "the conversion iterator visits all items of the given type");
  vs_assert(all2(g, ghosts(c), same_object), "views do not change the container");
}
template <class X> static void search(const PV &c, const std::shared_ptr<X> &x) {
  auto g = ghosts(c), gx = std::vector<Ghost>{ghost(x)};
  std::size_t want = 0, first = g.size();
  for (std::size_t i = 0; i < g.size(); i++) if ((g[i].kind == gx[0].kind) & (g[i].v == gx[0].v) & (g[i].w == gx[0].w)) { want++; if (first == g.size()) first = i; }
  vs_assert(c.count(x) == want, "count() supplies the number of items equal to the argument");
  vs_assert(c.find(x) - c.begin() == (long)first, "find() supplies the first item equal to the argument");
}
VS_ENTRY(count_find) {
  PV c; fill(c, ch("n", 0, 2), ITEM);
  std::shared_ptr<Sub> x;
  if (ch("empty", 0, 1)) { vs_assert(vs_throws([&] { c.count(x); }) & vs_throws([&] { c.find(x); }), "empty pointers are refused"); return; }
  int v = vs_i32("v"); x.reset(new Sub(v, vs_i32("w")));
  search(c, x);
}
struct Plain { int v; };
static VS_NOINLINE std::vector<std::shared_ptr<Plain>> plains(int n) { std::vector<std::shared_ptr<Plain>> r; for (int i = 0; i < n; i++) r.push_back(std::make_shared<Plain>(Plain{vs_i32("v")})); return r; }
VS_ENTRY(plain_pointers) {
  auto from = plains(ch("from", 0, 3)), to = plains(ch("to", 0, 3));
  auto f0 = from; std::vector<int> v0; for (auto &p : from) v0.push_back(p->v);
  copySmartPointerVector(from, to);
  bool ok = (from.size() == f0.size()) & (to.size() == f0.size());
  vs_assert(ok, "a copied vector of smart pointers has the size of its source");
  for (std::size_t i = 0; i < v0.size(); i++) ok = ok & (from[i] == f0[i]) & (from[i]->v == v0[i]) & (to[i]->v == v0[i]) & (to[i] != from[i]);
  vs_assert(ok, "a copied vector of smart pointers has its own objects with the same values");
  std::shared_ptr<Plain> a = ch("a", 0, 1) ? std::make_shared<Plain>(Plain{vs_i32("v")}) : nullptr, b = ch("b", 0, 1) ? std::make_shared<Plain>(Plain{vs_i32("v")}) : nullptr;
  copySmartPointer(a, b);
  vs_assert((!a) == (!b), "the copy of an empty pointer is empty");
  if (a) vs_assert((a != b) & (a->v == b->v), "the copy of a smart pointer points to an object of its own with the same value");
}
VS_ENTRY(objects) {
  std::vector<Item> from, to;
  for (int i = 0, n = ch("from", 0, 3); i < n; i++) from.push_back(Item(vs_i32("v")));
  for (int i = 0, n = ch("to", 0, 3); i < n; i++) to.push_back(Item(vs_i32("v")));
  std::vector<int> v0; for (auto &x : from) v0.push_back(x.v);
  copyCloneableObjectsContainer(from, to);
  bool ok = (from.size() == v0.size()) & (to.size() == v0.size());
  vs_assert(ok, "a copied container of objects has the size of its source");
  for (std::size_t i = 0; i < v0.size(); i++) ok = ok & (from[i].v == v0[i]) & (to[i].v == v0[i]);
  vs_assert(ok, "a copied container of objects has the same values");
}
VS_ENTRY(arrays) {
  std::size_t nf = ch("nf", 0, 3), nt = ch("nt", 0, 3);
  int *f = nf ? new int[nf] : nullptr, *t = nt ? new int[nt] : nullptr;
  std::vector<int> v0;
  for (std::size_t i = 0; i < nf; i++) { f[i] = vs_i32("v"); v0.push_back(f[i]); }
  int bad = ch("bad", 0, 2); // inconsistent arguments
  if (bad == 1) { std::size_t n = nf ? 0 : 1; vs_assert(vs_throws([&] { copyArrays(f, t, n, nt); }), "sizes that do not match an array are refused"); return; }
  if (bad == 2) { std::size_t n = nt ? 0 : 1; vs_assert(vs_throws([&] { copyArrays(f, t, nf, n); }), "sizes that do not match an array are refused"); return; }
  copyArrays(f, t, nf, nt);
  bool ok = (nt == v0.size()) & ((t == nullptr) == (nt == 0)) & ((t == nullptr) | (t != f));
  vs_assert(ok, "a copied array has the size of its source");
  for (std::size_t i = 0; i < v0.size(); i++) ok = ok & (f[i] == v0[i]) & (t[i] == v0[i]);
  vs_assert(ok, "a copied array has the values of its source");
}
VS_ENTRY(erasure) {
  std::vector<int> c; int n = ch("n", 0, 3);
  for (int i = 0; i < n; i++) c.push_back(vs_i32("x"));
  std::vector<bool> flags; std::vector<int> want, c0 = c;
  if (ch("op", 0, 1)) {
    std::size_t k = 0;
    for (int x : c) if (x > 5) k++; else want.push_back(x);
    vs_assert(erase_if(c, [](int x) { return x > 5; }) == k, "erase_if() supplies the number of erased items");
  } else {
    int nf = ch("nf", 0, 3);
    for (int i = 0; i < nf; i++) flags.push_back(ch("f", 0, 1));
    std::size_t start = ch("start", 0, 3), end = ch("end", 0, 4);
    bool flag = ch("flag", 0, 1);
    bool threw = vs_throws([&] { erase_according_to_flags(c, flags, flag, start, end); });
    vs_assert(threw == (end <= start | end > (std::size_t)n | nf != n), "invalid ranges and sizes are refused");
    for (int i = 0; i < n; i++) if (threw || (std::size_t)i < start || (std::size_t)i >= end || flags[i] != flag) want.push_back(c0[i]);
  }
  bool ok = want.size() == c.size();
  vs_assert(ok, "erasing removes the number of selected items");
  for (std::size_t i = 0; i < want.size(); i++) ok = ok & (want[i] == c[i]);
  vs_assert(ok, "erasing removes the selected items and keeps the order of the others");
}
