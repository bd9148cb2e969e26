// Contracts of the numeric helpers: range enforcement, best/worst cases, minima/maxima, vector arithmetic, statistics.
// vs: link src/common/GCommonMathHelperFunctions.cpp
// vs: nlink src/common/GLogger.cpp src/common/GCommonHelperFunctions.cpp src/common/GThreadGroup.cpp
// vs: set fpuf=["fadd","fsub","fmul","fdiv"] ufmemo=1
// vs: bound vectors of up to 3 elements
// vs: entry mix_range complete=1
// vs: entry scalars complete=1
// vs: entry extremes complete=1
// vs: entry value_range_long complete=1
// vs: entry value_range_short complete=1
// vs: entry value_range_size complete=1
// vs: entry value_range_unsigned complete=1
// vs: entry value_range_int complete=1
// vs: entry value_range_fp complete=1
// vs: entry compliance complete=1
// vs: entry enforce_float complete=1
// vs: entry enforce_double complete=1
#include "common/GCommonMathHelperFunctionsT.hpp"
#include "vs.hpp"
#include <cmath>
#include <limits>
using namespace Gem::Common;
static const double INF = std::numeric_limits<double>::infinity();
static bool fin(double x) { return (x >= -1.7976931348623157e308) & (x <= 1.7976931348623157e308); }
// the same value, up to rounding when computed natively
static bool close_to(double a, double b) { return a == b || (a != a && b != b) || (!vs_is_symbolic() && std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b))); }
static bool close_abs(double a, double b, double scale) { bool eq = (a == b) | ((a != a) & (b != b)); if (vs_is_symbolic()) return eq; return eq || (!vs_is_symbolic() && !(std::fabs(a - b) > 1e-9 * scale)); }
template <typename F> static VS_NOINLINE void enforce(F v, F l, F u) {
  F x = v, r = 0; bool t = vs_throws([&] { r = enforceRangeConstraint<F>(x, l, u); });
  vs_assert(t == (l > u), "enforceRangeConstraint throws exactly for an inverted range");
  if (t) { vs_assert(x == v || v != v, "a rejected call leaves the value alone"); return; }
  vs_assert(r == x || (v != v && x != x), "the clamped value is returned and stored");
  if (v == v) vs_assert(x == (v < l ? l : v > u ? u : v), "values are clamped to the range, values inside are unchanged");
}
VS_ENTRY(enforce_double) { enforce<double>(vs_f64("v"), vs_f64("l"), vs_f64("u")); }
VS_ENTRY(enforce_float) { enforce<float>(vs_f32("v"), vs_f32("l"), vs_f32("u")); }
VS_ENTRY(compliance) {
  double v = vs_f64("v"), l = vs_f64("l"), u = vs_f64("u"); bool r = false;
  bool t = vs_throws([&] { r = checkRangeCompliance<double>(v, l, u); });
  vs_assert(t == (l > u), "checkRangeCompliance throws exactly for an inverted range");
  if (!t) vs_assert(r == (v >= l && v <= u), "checkRangeCompliance decides membership");
  int vi = vs_i32("vi"), li = vs_i32("li"), ui = vs_i32("ui"); bool ri = false;
  bool ti = vs_throws([&] { ri = checkRangeCompliance<int>(vi, li, ui); });
  vs_assert(ti == (li > ui) && (ti || ri == (vi >= li && vi <= ui)), "checkRangeCompliance decides membership (integers)");
}
VS_ENTRY(value_range_fp) {
  double v = vs_f64("v"), l = vs_f64("l"), u = vs_f64("u"); bool lo = vs_bool("lo"), uo = vs_bool("uo"), w = vs_bool("warn");
  vs_assume(fin(v) & fin(l) & fin(u)); vs_assume(l < 1e308 & u > -1e308);
  double r = 0; bool t = vs_throws([&] { r = checkValueRange<double>(v, l, u, lo, uo, w); });
  bool in = (lo ? v > l : v >= l) && (uo ? v < u : v <= u);
  vs_assert(t == (!in && !w), "checkValueRange throws exactly for values outside of the (half-)open range unless only a warning was requested");
  if (!t) vs_assert(r == v, "checkValueRange returns the value");
}
template <typename I> static VS_NOINLINE void value_range(I v, I l, I u) {
  bool lo = vs_bool("lo"), uo = vs_bool("uo"), w = vs_bool("warn");
  I r = 0; bool t = vs_throws([&] { r = checkValueRange<I>(v, l, u, lo, uo, w); });
  bool in = (lo ? v > l : v >= l) & (uo ? v < u : v <= u);
  vs_assert(t == (!in & !w), "checkValueRange throws exactly for integers outside of the (half-)open range unless only a warning was requested");
  if (!t) vs_assert(r == v, "checkValueRange returns the integer");
}
VS_ENTRY(value_range_int) { value_range<int>(vs_i32("v"), vs_i32("l"), vs_i32("u")); }
VS_ENTRY(value_range_unsigned) { value_range<unsigned>(vs_u32("v"), vs_u32("l"), vs_u32("u")); }
VS_ENTRY(value_range_size) { value_range<std::size_t>(vs_u64("v"), vs_u64("l"), vs_u64("u")); }
VS_ENTRY(value_range_short) { value_range<std::int16_t>(vs_i16("v"), vs_i16("l"), vs_i16("u")); }
VS_ENTRY(value_range_long) { value_range<std::int64_t>(vs_i64("v"), vs_i64("l"), vs_i64("u")); }
VS_ENTRY(extremes) {
  double x = vs_f64("x"); vs_assume(fin(x)); bool m = vs_bool("max");
  double w = getWorstCase<double>(m), b = getBestCase<double>(m);
  vs_assert(fin(w) && fin(b), "best and worst case are finite");
  vs_assert(m ? (w <= x && b >= x) : (w >= x && b <= x), "nothing is worse than the worst or better than the best case");
  vs_assert(getWorstCase<double>(m ? sortOrder::HIGHERISBETTER : sortOrder::LOWERISBETTER) == w && getBestCase<double>(m ? sortOrder::HIGHERISBETTER : sortOrder::LOWERISBETTER) == b, "the sort order form agrees with the maximisation form");
}
static VS_NOINLINE std::vector<double> vec(const char *n, std::size_t k) { std::vector<double> v; v.reserve(4); for (std::size_t i = 0; i < k; ++i) { double x = vs_f64(n); v.push_back(x); } return v; }
VS_ENTRY(minmax1) {
  std::size_t n = vs_choice("n", 4); auto v = vec("x", n);
  for (double x : v) vs_assume(fin(x));
  double lo = 0, hi = 0; bool t = vs_throws([&] { auto r = getMinMax(v); lo = std::get<0>(r); hi = std::get<1>(r); });
  vs_assert(t == (n < 2), "getMinMax requires two values");
  if (t) return;
  bool l = false, h = false;
  for (double x : v) { vs_assert(lo <= x && x <= hi, "minimum and maximum bound all values"); l |= lo == x; h |= hi == x; }
  vs_assert(l && h, "minimum and maximum are attained");
}
VS_ENTRY(minmax_tuples) {
  std::vector<std::tuple<double, double, double, double>> v4; std::vector<std::tuple<double, double, double>> v3; std::vector<std::tuple<double, double>> v2;
  double a[4][2];
  for (int i = 0; i < 2; ++i) { for (int k = 0; k < 4; ++k) { a[k][i] = vs_f64("x"); vs_assume(fin(a[k][i])); } }
  for (int i = 0; i < 2; ++i) { v4.emplace_back(a[0][i], a[1][i], a[2][i], a[3][i]); v3.emplace_back(a[0][i], a[1][i], a[2][i]); v2.emplace_back(a[0][i], a[1][i]); }
  auto mn = [&](int k) { return a[k][0] < a[k][1] ? a[k][0] : a[k][1]; }; auto mx = [&](int k) { return a[k][0] > a[k][1] ? a[k][0] : a[k][1]; };
  switch (vs_choice("dim", 3)) {
    case 0: { auto r = getMinMax(v2); vs_assert((std::get<0>(r) == mn(0)) & (std::get<1>(r) == mx(0)) & (std::get<2>(r) == mn(1)) & (std::get<3>(r) == mx(1)), "getMinMax of pairs works per component"); break; }
    case 1: { auto r = getMinMax(v3); vs_assert((std::get<0>(r) == mn(0)) & (std::get<1>(r) == mx(0)) & (std::get<2>(r) == mn(1)) & (std::get<3>(r) == mx(1)) & (std::get<4>(r) == mn(2)) & (std::get<5>(r) == mx(2)), "getMinMax of triples works per component"); break; }
    case 2: { auto r = getMinMax(v4); vs_assert((std::get<0>(r) == mn(0)) & (std::get<1>(r) == mx(0)) & (std::get<2>(r) == mn(1)) & (std::get<3>(r) == mx(1)) & (std::get<4>(r) == mn(2)) & (std::get<5>(r) == mx(2)) & (std::get<6>(r) == mn(3)) & (std::get<7>(r) == mx(3)), "getMinMax of quadruples works per component"); break; }
  }
}
VS_ENTRY(vector_ops) {
  std::size_t n = vs_choice("n", 4), m = vs_choice("m", 4); auto a = vec("a", n), b = vec("b", m); double c = vs_f64("c");
  auto a0 = a, b0 = b;
  unsigned op = unsigned(vs_choice("op", 4)); bool t = false;
  switch (op) {
    case 0: t = vs_throws([&] { addVec(a, b); }); break;
    case 1: t = vs_throws([&] { subtractVec(a, b); }); break;
    case 2: multVecConst(a, c); break;
    case 3: assignVecConst(a, c); break;
  }
  if (op < 2) vs_assert(t == (n != m), "vectors of different sizes are rejected");
  vs_assert(a.size() == n && b.size() == m, "vector operations keep the sizes");
  for (std::size_t i = 0; i < n; ++i) {
    double e = t ? a0[i] : op == 0 ? a0[i] + b0[i] : op == 1 ? a0[i] - b0[i] : op == 2 ? a0[i] * c : c;
    vs_assert(close_to(a[i], e), "vector operations work element by element");
  }
  for (std::size_t i = 0; i < m; ++i) vs_assert(b[i] == b0[i] || b0[i] != b0[i], "the second operand is unchanged");
}
VS_ENTRY(mean_stddev) {
  std::size_t n = vs_choice("n", 4); auto v = vec("x", n); double scale = 0;
  for (double x : v) if (!vs_is_symbolic()) { vs_assume((x > -1e100) & (x < 1e100)); scale += std::fabs(x); }
  double m = 0; bool t = vs_throws([&] { m = GMean(v); });
  vs_assert(t == (n == 0), "the mean of an empty set is refused");
  if (t) { vs_assert(vs_throws([&] { (void)GStandardDeviation(v); }), "the deviation of an empty set is refused"); return; }
  double s = 0; for (double x : v) s += x;
  vs_assert(close_abs(m, s / double(n), scale), "the mean is the sum divided by the number of values");
  auto r = GStandardDeviation(v);
  if (n == 1) { vs_assert(v[0] != v[0] || (std::get<0>(r) == v[0] && std::get<1>(r) == 0), "a single value has no deviation"); return; }
  vs_assert(close_abs(std::get<0>(r), m, scale), "mean and deviation agree on the mean");
  double q = 0; for (double x : v) q += (x - m) * (x - m);
  vs_assert(close_abs(std::get<1>(r), std::sqrt(q / double(n - 1)), scale), "the deviation is the sample standard deviation");
}
VS_ENTRY(vec_stddev) {
  std::vector<std::vector<double>> d; d.push_back(vec("a", 2)); d.push_back(vec("b", 2)); if (vs_choice("nb", 2)) d[1].pop_back();
  double scale = 0;
  for (auto &r : d) for (double x : r) if (!vs_is_symbolic()) { vs_assume((x > -1e100) & (x < 1e100)); scale += std::fabs(x); }
  std::vector<std::tuple<double, double>> res; res.emplace_back(1., 2.);
  bool t = vs_throws([&] { GVecStandardDeviation(d, res); });
  vs_assert(t == (d[1].size() != 2), "data sets of different sizes are refused");
  if (t) return;
  vs_assert(res.size() == 2, "one result per component");
  for (std::size_t k = 0; k < 2; ++k) {
    std::vector<double> c; c.push_back(d[0][k]); c.push_back(d[1][k]); auto r = GStandardDeviation(c);
    vs_assert(close_abs(std::get<0>(res[k]), std::get<0>(r), scale) & close_abs(std::get<1>(res[k]), std::get<1>(r), scale), "each component is described by its mean and deviation");
  }
}
VS_ENTRY(sums) {
  std::size_t n = vs_choice("n", 3); std::vector<std::tuple<double, double>> v; double sc = 0;
  double sx = 0, sy = 0, qx = 0, qy = 0, p = 0;
  for (std::size_t i = 0; i < n; ++i) {
    double x = vs_f64("x"), y = vs_f64("y"); vs_assume((x > -1e6) & (x < 1e6) & (y > -1e6) & (y < 1e6)); v.emplace_back(x, y);
    sx += x; sy += y; qx += gpow(x, 2.); qy += gpow(y, 2.); p += x * y; if (!vs_is_symbolic()) sc += std::fabs(x) + std::fabs(y) + x * x + y * y;
  }
  auto s = sumTupleVec(v); auto q = squareSumTupleVec(v);
  vs_assert(close_abs(std::get<0>(s), sx, sc) && close_abs(std::get<1>(s), sy, sc), "sums are formed per component");
  vs_assert(close_abs(std::get<0>(q), qx, sc) && close_abs(std::get<1>(q), qy, sc), "square sums are formed per component");
  vs_assert(close_abs(productSumTupleVec(v), p, sc), "product sum");
}
// a straight line is recovered from points on it
VS_ENTRY(regression) {
  int a = int(vs_choice("a", 21)) - 10, b = int(vs_choice("b", 21)) - 10; std::size_t n = 3 + vs_choice("n", 4); std::vector<std::tuple<double, double>> v;
  for (std::size_t i = 0; i < n; ++i) { double x = double(vs_choice("dx", 5)) + double(5 * i); v.emplace_back(x, a + b * x); }
  auto r = getRegressionParameters(v);
  vs_assert(std::fabs(std::get<0>(r) - a) < 1e-6 && std::fabs(std::get<2>(r) - b) < 1e-6, "linear regression recovers the line through collinear points");
  vs_assert(!(std::get<1>(r) > 1e-3) && !(std::get<3>(r) > 1e-3), "collinear points have no regression error");
  vs_assert(std::get<0>(getRegressionParameters(std::vector<std::tuple<double, double>>())) == 0, "no points give a zero line");
}
VS_ENTRY(regression_noise) {
  std::size_t n = 3 + vs_choice("n", 4); std::vector<std::tuple<double, double>> v; std::vector<double> X, Y;
  for (std::size_t i = 0; i < n; ++i) { double x = double(vs_choice("dx", 5)) + double(5 * i), y = double(vs_choice("y", 101)) - 50; v.emplace_back(x, y); X.push_back(x); Y.push_back(y); }
  double mx = GMean(X), my = GMean(Y), sxy = 0, sxx = 0; for (std::size_t i = 0; i < n; ++i) { sxy += (X[i] - mx) * (Y[i] - my); sxx += (X[i] - mx) * (X[i] - mx); }
  double b = sxy / sxx, a = my - b * mx, dev = 0; for (std::size_t i = 0; i < n; ++i) dev += (Y[i] - a - b * X[i]) * (Y[i] - a - b * X[i]);
  auto r = getRegressionParameters(v);
  vs_assert(std::fabs(std::get<0>(r) - a) < 1e-6 && std::fabs(std::get<2>(r) - b) < 1e-6, "linear regression minimises the squared deviation");
  vs_assert(std::fabs(std::get<3>(r) - std::sqrt(dev / double(n - 2) / sxx)) < 1e-6, "regression error of the slope");
  double qx = 0; for (double x : X) qx += x * x;
  vs_assert(std::fabs(std::get<1>(r) - std::sqrt(dev / double(n - 2)) * std::sqrt(qx / (double(n) * sxx))) < 1e-6, "regression error of the intercept");
}
VS_ENTRY(scalars) {
  double x = vs_f64("x"), y = vs_f64("y"); int i = vs_i32("i"); vs_assume(i != INT32_MIN);
  if (x == x && y == y) {
    vs_assert(gmax(x, y) == (x > y ? x : y) && gmin(x, y) == (x < y ? x : y), "gmax and gmin");
    vs_assert(gfabs(x) == (x < 0 ? -x : x), "gfabs");
    vs_assert(x == 0 || gsign(x) == (x < 0 ? -1. : 1.), "gsign");
    vs_assert(isClose<double>(x, y, 0.5) == (gfabs(x - y) <= 0.5), "isClose compares the distance with the margin");
  }
  vs_assert(giabs(i) == (i < 0 ? -i : i), "giabs");
}
VS_ENTRY(mix_range) {
  double b = vs_f64("b"), t = vs_f64("t"), al = vs_f64("alpha"), r = 0; vs_assume((b > -1e100) & (b < 1e100) & (t > -1e100) & (t < 1e100)); vs_assume(al == al);
  bool thr = vs_throws([&] { r = gmix(b, t, al); });
  vs_assert(thr == (al < 0 || al > 1), "gmix refuses weights outside of [0,1]");
  if (!thr) vs_assert(close_abs(r, b * (1. - al) + t * al, gfabs(b) + gfabs(t)), "gmix is the weighted mean");
  float rf = 0; float bf = 1, tf = 3, af = vs_f32("af"); vs_assume(af == af);
  bool thf = vs_throws([&] { rf = gmix(bf, tf, af); });
  vs_assert(thf == (af < 0.f || af > 1.f), "gmix<float> refuses weights outside of [0,1]");
}
VS_ENTRY(sigmoid) {
  double x = vs_f64("x"), b = vs_f64("b"), s = vs_f64("s"); vs_assume(fin(x) && b > 1e-3 && b < 1e6 && s > 1e-3 && s < 1e6);
  double r = gsigmoid(x, b, s);
  vs_assert(r >= -b && r <= b && (x == 0 || (x > 0) == (r >= 0)), "the sigmoid keeps the sign and stays inside of its barrier");
  if (std::fabs(x) < 1e100) vs_assert(std::fabs(r - b * x / (s + std::fabs(x))) <= 1e-9 * b, "the sigmoid formula");
}
VS_ENTRY(ratio_error) {
  double s0 = double(vs_choice("s", 3)), p0 = double(vs_choice("p", 3)); double sv = vs_f64("sv"), se = vs_f64("se"), pv = vs_f64("pv"), pe = vs_f64("pe");
  vs_assume(sv > -1e6 && sv < 1e6 && se >= 0 && se < 1e6 && pe >= 0 && pe < 1e6 && (pv == 0 || (pv > 1e-3 && pv < 1e6)));
  std::tuple<double, double, double, double> S(s0, 0., sv, se), P(p0, 0., pv, pe), R;
  bool t = vs_throws([&] { R = getRatioError(S, P); });
  vs_assert(t == (pv == 0 || s0 != p0), "ratio errors require equal abscissae and a divisor");
  if (t) return;
  vs_assert(std::get<0>(R) == s0 && close_to(std::get<2>(R), sv / pv), "the ratio is formed at the same abscissa");
  double e = std::sqrt((se / pv) * (se / pv) + (sv * pe / (pv * pv)) * (sv * pe / (pv * pv)));
  vs_assert(std::fabs(std::get<3>(R) - e) <= 1e-9 * (1 + e), "Gaussian error propagation");
}
// vs: entry regression sym=0
// vs: entry regression_noise sym=0
// vs: entry sigmoid sym=0
// vs: entry ratio_error sym=0
