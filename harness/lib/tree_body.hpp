// Contracts of the parameter tree for one value type (T, leaf classes and constants are defined by the unit).
#pragma once
struct Leaf { std::shared_ptr<GParameterBase> p; int kind; std::size_t n; bool active; T v[2]; const char *name; };
enum { K_CO, K_UO, K_CC, K_UC };
static VS_NOINLINE T leaf_value(const Leaf &l, std::size_t i) {
  GParameterBase *p = l.p.get();
  if (l.kind == K_CO) return static_cast<CO *>(p)->value();
  if (l.kind == K_UO) return static_cast<UO *>(p)->value();
  if (l.kind == K_CC) return static_cast<CC *>(p)->value(i);
  return static_cast<UC *>(p)->value(i);
}
struct Tree { std::shared_ptr<GParameterObjectCollection> root; std::vector<Leaf> l; std::shared_ptr<FOREIGN> foreign; activityMode am; };
template <typename X> struct keep { void operator()(X *) const {} };
template <typename X, typename... A> static std::shared_ptr<X> mk(A &&...a) { return std::shared_ptr<X>(new X(std::forward<A>(a)...), keep<X>()); }
static bool leaf_on(const Tree &t, const Leaf &l) { return t.am == activityMode::ALLPARAMETERS || (t.am == activityMode::ACTIVEONLY) == l.active; }
// which leaves are active: patterns in which every pair of leaves occurs in all four combinations, or a single leaf that matches the mode
static const int PAT[6] = {0x00, 0x1f, 0x0a, 0x15, 0x0c, 0x13};
static int g_pat = 0, g_focus = -1;
static VS_NOINLINE T leaf_in(const char *n, bool bounded, int leaf) { if (g_focus >= -1 && leaf != g_focus && g_focus != -1) return CONCRETE(leaf); if (g_focus == -2) return CONCRETE(leaf); return bounded ? in_bounds(n) : any_value(n); }
static VS_NOINLINE void add_leaf(Tree &t, GParameterObjectCollection *to, std::shared_ptr<GParameterBase> p, int kind, std::size_t n, const char *name, T a, T b) {
  bool on = (g_pat >> t.l.size()) & 1; Leaf l{p, kind, n, on, {a, b}, name}; p->setParameterName(name); if (!on) p->setAdaptionsInactive(); if (to) to->push_back(p); t.l.push_back(l);
}
enum { ALL_LEAVES, ONE_LEAF, CONCRETE_LEAF };
static VS_NOINLINE Tree build(activityMode);
// a tree with leaves of all kinds, in depth-first order
static VS_NOINLINE Tree tree(int how = ALL_LEAVES) {
  std::uint64_t am = vs_choice("mode", 3);
  if (how == CONCRETE_LEAF) { g_focus = -2; g_pat = PAT[vs_choice("active", 6)]; }
  else if (how == ALL_LEAVES) { g_focus = -1; g_pat = PAT[vs_choice("active", 6)]; }
  else if (am == 0) { g_focus = -2; g_pat = PAT[2]; }
  else { g_focus = int(vs_choice("leaf", 5)); g_pat = am == 1 ? 1 << g_focus : 0x1f ^ (1 << g_focus); }
  return build(amode(am));
}
static VS_NOINLINE Tree build(activityMode am) {
  Tree t; t.root = mk<GParameterObjectCollection>(); t.am = am;
  T a = leaf_in("a", true, 0); auto co = mk<CO>(CO_ARGS); add_leaf(t, t.root.get(), co, COE_KIND, 1, "p0", a, a);
  t.foreign = mk<FOREIGN>(FOREIGN_VALUE); t.foreign->setParameterName("foreign"); t.root->push_back(t.foreign);
  auto sub = mk<GParameterObjectCollection>(); t.root->push_back(sub); if (g_pat & 4) sub->setAdaptionsInactive();
  T f = leaf_in("f", false, 1), g = leaf_in("g", false, 1); auto uc = mk<UC>(2, f ARGS_INIT); uc->at(1) = g; add_leaf(t, sub.get(), uc, K_UC, 2, "p1", f, g);
  T c = leaf_in("c", true, 2); auto coc = mk<COC>(); auto o = mk<COE>(COE_ARGS); add_leaf(t, nullptr, o, COE_KIND, 1, "p2", c, c); coc->push_back(o); sub->push_back(coc);
  HAVE_CC({ T d = leaf_in("d", true, 3), d2 = leaf_in("d2", true, 3); auto cc = mk<CC>(2, d, LO, HI); cc->setValue(1, d2); add_leaf(t, sub.get(), cc, K_CC, 2, "p3", d, d2); })
  T e = leaf_in("e", false, 4); add_leaf(t, t.root.get(), mk<UO>(e), K_UO, 1, "p4", e, e);
  for (auto &l : t.l) if (l.kind == K_CO || l.kind == K_CC) UB_OK(l);
  return t;
}
static VS_NOINLINE std::vector<T> wanted(const Tree &t) { std::vector<T> r; for (auto &l : t.l) if (leaf_on(t, l)) for (std::size_t i = 0; i < l.n; ++i) r.push_back(l.v[i]); return r; }
static VS_NOINLINE void unchanged(Tree &t, const char *what) { bool ok = true; for (auto &l : t.l) if (!leaf_on(t, l)) for (std::size_t i = 0; i < l.n; ++i) ok = ok & (leaf_value(l, i) == l.v[i]); vs_assert(ok, what); vs_assert(t.foreign->value() == FOREIGN_VALUE, "parameters of other types are not touched"); }

VS_ENTRY(streamline) {
  Tree t = tree(); std::vector<T> out; T pre = any_value("pre"); out.push_back(pre);
  t.root->streamline<T>(out, t.am); std::vector<T> w = wanted(t);
  vs_assert(out.size() == 1 + w.size() && out[0] == pre, "streamline appends exactly the parameters that match type and activity mode");
  bool ok = true; for (std::size_t i = 0; i < w.size(); ++i) ok = ok & (out[1 + i] == w[i]); vs_assert(ok, "streamline delivers the parameter values in the order of the parameter objects");
  vs_assert(t.root->countParameters<T>(t.am) == w.size(), "countParameters counts what streamline delivers");
  std::vector<T> lo, hi; t.root->boundaries<T>(lo, hi, t.am); vs_assert(lo.size() == w.size() && hi.size() == w.size(), "boundaries delivers one pair for each parameter");
  std::size_t k = 0; ok = true; for (auto &l : t.l) if (leaf_on(t, l)) for (std::size_t i = 0; i < l.n; ++i, ++k) if (l.kind == K_CO || l.kind == K_CC) ok = ok & (lo[k] == LO) & (hi[k] == UB(l)) & (w[k] >= lo[k]) & (w[k] <= hi[k]); else ok = ok & INIT_BOUNDS(lo[k], hi[k]);
  vs_assert(ok, "the boundaries are those of the parameter objects and enclose constrained values");
  std::map<std::string, std::vector<T>> m; t.root->streamline<T>(m, t.am); std::size_t n = 0; ok = true;
  for (auto &l : t.l) { auto it = m.find(l.name); bool on = leaf_on(t, l); vs_assert((it != m.end()) == on, "the map holds exactly the matching parameter objects under their names"); if (on) { ++n; vs_assert(it->second.size() == l.n, "the map holds all values of a parameter object"); for (std::size_t i = 0; i < l.n; ++i) ok = ok & (it->second[i] == l.v[i]); } }
  vs_assert(ok & (m.size() == n), "the map holds the parameter values"); for (auto &l : t.l) for (std::size_t i = 0; i < l.n; ++i) ok = ok & (leaf_value(l, i) == l.v[i]); vs_assert(ok, "collecting values does not change parameters");
}
VS_ENTRY(assign) {
  Tree t = tree(); std::size_t n = wanted(t).size(), skip = vs_choice("skip", 2), given = n + skip + vs_choice("extra", 2); bool few = n && vs_choice("few", 2); if (few) given = n + skip - 1;
  std::vector<T> in; static const char *nm[12] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11"}; for (std::size_t i = 0; i < given; ++i) in.push_back(in_bounds(nm[i]));
  std::size_t pos = skip; bool threw = vs_throws([&] { t.root->assignValueVector<T>(in, pos, t.am); });
  vs_assert(threw == few, "assignValueVector refuses vectors that are too short"); unchanged(t, "assignValueVector changes only parameters that match the activity mode");
  if (!few) { bool ok = true; std::size_t k = skip; for (auto &l : t.l) if (leaf_on(t, l)) for (std::size_t i = 0; i < l.n; ++i) ok = ok & (leaf_value(l, i) == in[k++]); vs_assert(ok, "assignValueVector assigns the values in the order of streamline"); vs_assert(pos == skip + n, "assignValueVector advances the position by the number of values used"); }
}
VS_ENTRY(assign_map) {
  Tree t = tree(); std::map<std::string, std::vector<T>> m; static const char *nm[10] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9"}; T in[10]; std::size_t k = 0, hits = 0; std::uint64_t miss = vs_choice("miss", 3); bool bad = false, unused = vs_choice("unused", 2);
  for (auto &l : t.l) { std::vector<T> v; for (std::size_t i = 0; i < l.n; ++i) { in[k] = in_bounds(nm[k]); v.push_back(in[k]); ++k; } bool on = leaf_on(t, l); if (on && !hits++ && miss) { bad = true; if (miss == 1) continue; v.pop_back(); } if (on || unused) m[l.name] = v; }
  bool threw = vs_throws([&] { t.root->assignValueVectors<T>(m, t.am); }); vs_assert(threw == bad, "assignValueVectors refuses maps that lack a matching parameter object or a value"); unchanged(t, "assignValueVectors changes only parameters that match the activity mode");
  if (!bad) { bool ok = true; k = 0; for (auto &l : t.l) for (std::size_t i = 0; i < l.n; ++i, ++k) if (leaf_on(t, l)) ok = ok & (leaf_value(l, i) == in[k]); vs_assert(ok, "assignValueVectors assigns the values by name"); }
}
static VS_NOINLINE bool shown_ok(const Leaf &l, T x) { return (l.kind == K_CO || l.kind == K_CC) ? (x >= LO) & (x <= UB(l)) : true; }
VS_ENTRY(random_init) {
  Tree t = tree(ONE_LEAF); Rnd gr; RND_RESET; g_nbern = 0; std::uint64_t blocked = vs_choice("blocked", 3); if (blocked == 1) t.root->blockRandomInitialization(); bool one = blocked == 2; if (one) t.l[0].p->blockRandomInitialization();
  bool f0 = t.foreign->value() == FOREIGN_VALUE; bool done = t.root->randomInit(t.am, gr); bool want = false, ok = true;
  if (t.am == activityMode::INACTIVEONLY) vs_assert(t.foreign->value() == FOREIGN_VALUE, "active parameters are not initialised"); if (blocked == 1) vs_assert(t.foreign->value() == FOREIGN_VALUE, "blocked parameters are not initialised"); else if (t.am != activityMode::INACTIVEONLY) want = true;
  int used = 0; std::size_t j = 0; for (auto &l : t.l) { bool on = leaf_on(t, l) && blocked != 1 && !(one && j == 0); ++j; want = want | on; for (std::size_t i = 0; i < l.n; ++i) { T x = leaf_value(l, i); if (on) ok = ok & shown_ok(l, x); else ok = ok & (x == l.v[i]); } }
  vs_assert(done == want, "random initialisation reports whether anything was initialised"); vs_assert(ok, "random initialisation changes matching parameters within their range and no others");
}
VS_ENTRY(adapt) {
  Tree t = tree(ONE_LEAF); Rnd gr; bool on = vs_choice("root_active", 2); T nx = in_bounds("next"); Adp<T>::next = nx; Adp<T>::calls = 0;
  std::size_t want = 0; Adp<FT>::calls = 0; Adp<FT>::next = FOREIGN_VALUE; if (!on) t.root->setAdaptionsInactive(); bool sub_off = g_pat & 4;
  std::size_t n = t.root->adapt(gr); bool ok = true; std::size_t j = 0;
  for (auto &l : t.l) { bool a = l.active && on && !(sub_off && j >= 1 && j < t.l.size() - 1); ++j; if (a) want += l.n; for (std::size_t i = 0; i < l.n; ++i) { T x = leaf_value(l, i); ok = ok & (x == (a ? nx : l.v[i])); } }
  vs_assert(ok, "adaption changes every value of active parameters below active collections and nothing else"); vs_assert(n == want + on && Adp<T>::calls == int(want), "adaption reports the number of adapted values");
}
