// Contracts shared by all constrained numeric parameters (GConstrainedNumT<T>): value/boundary setters and value().
// NUM_T: value type, NUM_O: concrete class, NUM_IN(name): arbitrary value, NUM_OK(l,u): admissible boundary pair,
// NUM_UB(u): upper boundary that a request for [l,u] establishes.
struct NumState { NUM_T v, l, u; };
static inline NumState num_snap(const NUM_O &o) { return {o.getInternalValue(), o.getLowerBoundary(), o.getUpperBoundary()}; }
static inline bool num_eq(const NumState &a, const NumState &b) { return a.v == b.v & a.l == b.l & a.u == b.u; }
static inline bool num_limit(NUM_T l, NUM_T u) { return l >= GConstrainedValueLimitT<NUM_T>::lowest() & NUM_UB(u) <= GConstrainedValueLimitT<NUM_T>::highest(); }
// the value that is stored when n is requested together with the upper boundary u
static inline NUM_T num_eff(NUM_T n, NUM_T u) { return n > NUM_UB(u) & n <= u ? NUM_UB(u) : n; }

VS_ENTRY(ctor_checks) {
  NUM_T l = NUM_IN("l"), u = NUM_IN("u"), v = NUM_IN("v");
  bool threw = false;
  try {
    NUM_O o(v, l, u);
    vs_cover("accepted");
    vs_assert(l < u & num_limit(l, u) & num_eff(v, u) >= l & v <= u, "the constructor accepts only lower < upper within the allowed limits and a value inside");
    vs_assert(o.getLowerBoundary() == l & o.getUpperBoundary() == NUM_UB(u), "the constructor stores the boundaries");
    vs_assert(o.getInternalValue() == num_eff(v, u), "the constructor stores the value");
  } catch (...) { threw = true; }
  if (threw) vs_assert(!(NUM_OK(l, u) & v >= l & v <= u), "the constructor rejects nothing admissible");
}
VS_ENTRY(set_value) {
  NUM_T l = NUM_IN("l"), u = NUM_IN("u"), v = NUM_IN("v"), n = NUM_IN("n");
  vs_assume(NUM_OK(l, u) & v >= l & v < u);
  NUM_O o(v, l, u);
  NumState s = num_snap(o);
  bool threw = vs_throws([&] { o.setValue(n); });
  vs_assert(threw == !(n >= s.l & n <= u), "setValue(v) throws exactly for values outside of the boundaries");
  if (threw) vs_assert(num_eq(s, num_snap(o)), "a rejected setValue(v) changes nothing");
  else vs_assert(o.getInternalValue() == num_eff(n, u) & o.getLowerBoundary() == s.l & o.getUpperBoundary() == s.u, "setValue(v) stores the value and keeps the boundaries");
}
VS_ENTRY(assign_value) {
  NUM_T l = NUM_IN("l"), u = NUM_IN("u"), v = NUM_IN("v"), n = NUM_IN("n");
  vs_assume(NUM_OK(l, u) & v >= l & v < u);
  NUM_O o(v, l, u);
  NumState s = num_snap(o);
  bool threw = vs_throws([&] { o = n; });
  vs_assert(threw == !(n >= s.l & n <= u), "assigning a value throws exactly for values outside of the boundaries");
  if (threw) vs_assert(num_eq(s, num_snap(o)), "a rejected assignment changes nothing");
  else vs_assert(o.getInternalValue() == num_eff(n, u) & o.getLowerBoundary() == s.l & o.getUpperBoundary() == s.u, "assignment stores the value and keeps the boundaries");
}
VS_ENTRY(set_value_boundaries) {
  NUM_T l = NUM_IN("l"), u = NUM_IN("u"), v = NUM_IN("v"), nl = NUM_IN("nl"), nu = NUM_IN("nu"), n = NUM_IN("n");
  vs_assume(NUM_OK(l, u) & v >= l & v < u);
  NUM_O o(v, l, u);
  NumState s = num_snap(o);
  bool threw = vs_throws([&] { o.setValue(n, nl, nu); });
  if (threw) {
    vs_assert(num_eq(s, num_snap(o)), "a rejected setValue(v, lower, upper) changes nothing");
    vs_assert(!(NUM_OK(nl, nu) & n >= nl & n <= nu), "setValue(v, lower, upper) rejects nothing admissible");
  } else {
    vs_assert(nl <= nu & num_limit(nl, nu) & num_eff(n, nu) >= nl & n <= nu, "setValue(v, lower, upper) accepts only a value inside of admissible boundaries");
    vs_assert(o.getInternalValue() == num_eff(n, nu) & o.getLowerBoundary() == nl & o.getUpperBoundary() == NUM_UB(nu), "setValue(v, lower, upper) stores value and boundaries");
  }
}
VS_ENTRY(set_boundaries) {
  NUM_T l = NUM_IN("l"), u = NUM_IN("u"), v = NUM_IN("v"), nl = NUM_IN("nl"), nu = NUM_IN("nu");
  vs_assume(NUM_OK(l, u) & v >= l & v < u);
  NUM_O o(v, l, u);
  vs_assume(v < o.getUpperBoundary());
  NumState s = num_snap(o);
  bool threw = vs_throws([&] { o.setBoundaries(nl, nu); });
  if (threw) {
    vs_assert(num_eq(s, num_snap(o)), "rejected setBoundaries leaves value and boundaries unchanged");
    vs_assert(!(NUM_OK(nl, nu) & v >= nl & v <= NUM_UB(nu)), "setBoundaries rejects nothing admissible");
  } else {
    vs_assert(nl <= nu & num_limit(nl, nu) & v >= nl & v <= nu, "setBoundaries never leaves the value outside of the new boundaries");
    vs_assert(o.getInternalValue() == v & o.getLowerBoundary() == nl & o.getUpperBoundary() == NUM_UB(nu), "setBoundaries stores the boundaries and keeps the value");
  }
}
VS_ENTRY(value_is_transferred) {
  NUM_T l = NUM_IN("l"), u = NUM_IN("u"), w = NUM_IN("w");
  vs_assume(NUM_OK(l, u) & NUM_FIN(w));
  NUM_O o(l, l, u);
  vs_assume(o.getLowerBoundary() < o.getUpperBoundary());
  o.setValue_(w);                                                // internal value, e.g. after an adaption
  NUM_T r = 0, a = 0, b = 0;
  bool t1 = vs_throws([&] { r = o.transfer(w); });
  vs_assume(!t1);
  bool t2 = vs_throws([&] { a = o.value(); });
  vs_assert(!t2 & a == r, "value() is the transferred internal value");
  vs_assert(o.getInternalValue() == r, "value() resets the internal value to the externally visible one");
  vs_assert(o.getLowerBoundary() == l & o.getUpperBoundary() == NUM_UB(u), "value() keeps the boundaries");
}
