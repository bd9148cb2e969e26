// Operations on trees of numeric parameters.
#pragma once
#include "tree_body.hpp"
static VS_NOINLINE T moved(const Leaf &l, T x) { T r = x; if (l.kind == K_CO || l.kind == K_CC) { bool refused = vs_throws([&] { r = l.kind == K_CO ? static_cast<CO *>(l.p.get())->transfer(x) : TRANSFER_CC(l, x); }); vs_assume(!refused); if (vs_is_symbolic() == false) { T y = r; refused = vs_throws([&] { r = l.kind == K_CO ? static_cast<CO *>(l.p.get())->transfer(y) : TRANSFER_CC(l, y); }); vs_assume(!refused); } } vs_assume(r == r); return r; }
static VS_NOINLINE void check_ops(Tree &t, const T *want, const char *what) { bool ok = true; std::size_t k = 0; for (auto &l : t.l) for (std::size_t i = 0; i < l.n; ++i, ++k) if (leaf_on(t, l)) ok = ok & (leaf_value(l, i) == want[k]); vs_assert(ok, what); unchanged(t, "operations change only parameters that match the activity mode"); }
VS_ENTRY(multiply) {
  Tree t = tree(ONE_LEAF); T x = t.am == activityMode::ALLPARAMETERS ? CONCRETE_OP : operand("x"), w[10]; std::size_t k = 0;
  for (auto &l : t.l) for (std::size_t i = 0; i < l.n; ++i, ++k) w[k] = leaf_on(t, l) ? moved(l, x * l.v[i]) : l.v[i];
  t.root->multiplyBy<T>(x, t.am); check_ops(t, w, "multiplyBy multiplies the values");
}
VS_ENTRY(fixed) {
  Tree t = tree(ONE_LEAF); T x = t.am == activityMode::ALLPARAMETERS ? CONCRETE_OP : operand("x"), w[10]; std::size_t k = 0;
  for (auto &l : t.l) for (std::size_t i = 0; i < l.n; ++i, ++k) w[k] = leaf_on(t, l) ? moved(l, x) : l.v[i];
  t.root->fixedValueInit<T>(x, t.am); check_ops(t, w, "fixedValueInit assigns the value");
}
VS_ENTRY(add_subtract) {
  Tree t = tree(ONE_LEAF), u = build(t.am); T w[10]; std::size_t k = 0; bool sub = vs_choice("subtract", 2);
  for (std::size_t j = 0; j < t.l.size(); ++j) for (std::size_t i = 0; i < t.l[j].n; ++i, ++k) { Leaf &l = t.l[j]; w[k] = leaf_on(t, l) ? moved(l, sub ? l.v[i] - u.l[j].v[i] : l.v[i] + u.l[j].v[i]) : l.v[i]; }
  if (sub) t.root->subtract<T>(u.root, t.am); else t.root->add<T>(u.root, t.am); check_ops(t, w, "add and subtract combine corresponding values"); bool ok = true; for (auto &l : u.l) for (std::size_t i = 0; i < l.n; ++i) ok = ok & (leaf_value(l, i) == l.v[i]); vs_assert(ok, "the other tree is not changed");
  auto one = mk<GParameterObjectCollection>(); one->push_back(mk<UO>(u.l[0].v[0])); vs_assert(vs_throws([&] { if (sub) t.root->subtract<T>(one, activityMode::ALLPARAMETERS); else t.root->add<T>(one, activityMode::ALLPARAMETERS); }), "trees of different shape are refused");
}
VS_ENTRY(multiply_random) {
  bool range = vs_choice("range", 2); Tree t = tree(!range && SCALE_CONCRETE ? CONCRETE_LEAF : ONE_LEAF); T lo = CONCRETE_RLO, hi = CONCRETE_RHI, w[10]; std::size_t k = 0; RND_RESET; Rnd gr;
  if (range) t.root->multiplyByRandom<T>(lo, hi, t.am, gr); else t.root->multiplyByRandom<T>(t.am, gr);
  int used = 0; for (auto &l : t.l) for (std::size_t i = 0; i < l.n; ++i, ++k) { if (!leaf_on(t, l)) { w[k] = l.v[i]; continue; } bool have = used < (range ? RND_N : g_nreal); vs_assert(have, "each value is multiplied by a random number of its own"); if (!have) return; w[k] = moved(l, range ? T(l.v[i] * RND_VAL[used]) : SCALED(l.v[i], g_real[used])); ++used; }
  vs_assert(used == (range ? RND_N : g_nreal), "no random numbers are wasted"); check_ops(t, w, "multiplyByRandom multiplies each value by its random number");
}
