// Contracts of the adaptors: adaption probability, self-adaption of their own parameters, and what they do to values.
// vs: noinline
// vs: link src/geneva/GAdaptorT.cpp src/geneva/GObject.cpp src/geneva/GDoubleGaussAdaptor.cpp src/geneva/GDoubleBiGaussAdaptor.cpp src/geneva/GInt32GaussAdaptor.cpp src/geneva/GInt32FlipAdaptor.cpp src/geneva/GBooleanAdaptor.cpp src/common/GCommonHelperFunctions.cpp src/common/GCommonMathHelperFunctions.cpp
// vs: nlink src/common/GLogger.cpp src/common/GExceptions.cpp src/common/GExpectationChecksT.cpp src/common/GParserBuilder.cpp src/common/GCommonEnums.cpp src/hap/GRandomBase.cpp src/hap/GRandomFactory.cpp src/common/GThreadGroup.cpp src/geneva/GOptimizationEnums.cpp
// vs: set fpuf=["fmul_f64","fadd_f64","fsub_f64"]
// vs: set ufmemo=1
// vs: set ufnan=1
// vs: contract random numbers: normal distributions return any number whose exponential is finite, uniform ones any number of the requested range, Bernoulli trials any outcome that has a probability
// vs: bound vectors of 0 to 2 values per call of adapt()
// vs: entry bigauss_adaption complete=1
// vs: entry bigauss_settings complete=1
// vs: entry bigauss_more complete=1
// vs: entry queries complete=1
// vs: entry flips complete=1
// vs: entry int_gauss complete=1
// vs: entry gauss_adaption complete=1
// vs: entry gauss_construction complete=1
// vs: entry gauss_settings complete=1
// vs: entry stalls complete=1
// vs: entry construction complete=1
// vs: entry adprob_range complete=1
// vs: entry settings complete=1
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "vs.hpp"
#include <random>
#include <cmath>
using namespace Gem::Geneva;
using GB = Gem::Hap::GRandomBase;
struct Rnd : GB { result_type int_random() override { return 0; } };
struct Draw { double mean, sigma, x; };
static Draw g_norm[8]; static int g_nnorm = 0; static bool g_trial[8]; static double g_p[8]; static int g_ntrial = 0; static double g_ua, g_ub; static int g_nunif = 0;
namespace std {
template <> template <> double normal_distribution<double>::operator()<GB>(GB &, const param_type &p) { double x = vs_ranged("normal", -40., 40.); vs_assume((x > -700.) & (x < 700.)); vs_assume(std::exp(x) < 1e305); if (g_nnorm < 8) g_norm[g_nnorm++] = {p.mean(), p.stddev(), x}; return x; }
template <> template <> double uniform_real_distribution<double>::operator()<GB>(GB &, const param_type &p) { double x = vs_ranged("uniform", p.a(), p.b()); vs_assume((x >= p.a()) & (x <= p.b())); g_ua = p.a(); g_ub = p.b(); ++g_nunif; return x; }
template <> bool bernoulli_distribution::operator()<GB>(GB &, const param_type &p) { bool x = vs_choice("trial", 2); vs_assume(x ? p.p() > 0 : p.p() < 1); if (g_ntrial < 8) { g_p[g_ntrial] = p.p(); g_trial[g_ntrial++] = x; } return x; }
}
static void reset_log() { g_nnorm = g_ntrial = g_nunif = 0; }
static VS_NOINLINE double num(const char *n) { double x = vs_f64(n); vs_assume(x == x); return x; }
static VS_NOINLINE double in(const char *n, double lo, double hi) { double x = vs_ranged(n, lo, hi); vs_assume((x >= lo) & (x <= hi)); return x; }
static double clamped(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
struct Probe : GAdaptorT<double> {
  int adapted = 0, self = 0, order = 0; const double *range = nullptr; bool ok = true; bool due = false;
  Probe() = default;
  explicit Probe(double p) : GAdaptorT<double>(p) {}
  Probe(const Probe &) = default;
  GObject *clone_() const override { return new Probe(*this); }
  std::string name_() const override { return "Probe"; }
  bool randomInit(GB &) override { return false; }
  adaptorId getAdaptorId_() const override { return adaptorId::GDOUBLEGAUSSADAPTOR; }
  void customAdaptAdaption(const double &r, GB &) override { ++self; ok = ok & (&r == range); }
  void customAdaptions(double &v, const double &r, GB &) override { ok = ok & (&r == range); v = 100. + adapted++; }
  bool modify_GUnitTests_() override { return false; } void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {}
};
template <typename A> struct St { double ap, mn, mx, rs, aa, aap; std::uint32_t c, t; adaptionMode m; };
template <typename A> static VS_NOINLINE St<A> state(A &a) {
  St<A> s; s.mn = in("min", DEFMINADPROB, 1.); s.mx = in("max", DEFMINADPROB, 1.); vs_assume(s.mn <= s.mx); s.ap = in("adprob", s.mn, s.mx); s.rs = in("reset", s.mn, s.mx); s.aa = in("adaptadprob", 0., 10.); s.aap = in("adaptadaption", 0., 1.); s.c = vs_u32("counter"); s.t = vs_u32("threshold"); vs_assume(s.t == 0 | s.c < s.t);
  a.m_minAdProb = s.mn; a.m_maxAdProb = s.mx; a.m_adProb = s.ap; a.m_adProb_reset = s.rs; a.m_adaptAdProb = s.aa; a.m_adaptAdaptionProbability = s.aap; a.m_adaptionCounter = s.c; a.m_adaptionThreshold = s.t;
  std::uint64_t m = vs_choice("mode", 3); s.m = m == 0 ? adaptionMode::NEVER : m == 1 ? adaptionMode::WITHPROBABILITY : adaptionMode::ALWAYS; a.m_adaptionMode = s.m; reset_log(); return s;
}
template <typename A> static VS_NOINLINE bool same(const A &a, const St<A> &s) { return (a.m_minAdProb == s.mn) & (a.m_maxAdProb == s.mx) & (a.m_adProb == s.ap) & (a.m_adProb_reset == s.rs) & (a.m_adaptAdProb == s.aa) & (a.m_adaptAdaptionProbability == s.aap) & (a.m_adaptionCounter == s.c) & (a.m_adaptionThreshold == s.t) & (a.m_adaptionMode == s.m); }
VS_ENTRY(settings) {
  Probe &a = *new Probe; auto s = state(a); double x = vs_f64("x"); std::uint32_t th = vs_u32("th"); bool ok; auto w = s;
  switch (vs_choice("op", 6)) {
    case 0: ok = (x >= s.mn) & (x <= s.mx); vs_assert(vs_throws([&] { a.setAdaptionProbability(x); }) == !ok, "setAdaptionProbability refuses exactly the values outside of the range"); if (ok) { w.ap = x; vs_assert(a.getAdaptionProbability() == x, "the requested adaption probability is set"); } break;
    case 1: ok = (x >= s.mn) & (x <= s.mx); vs_assert(vs_throws([&] { a.setResetAdaptionProbability(x); }) == !ok, "setResetAdaptionProbability refuses exactly the values outside of the range"); if (ok) { w.rs = x; vs_assert(a.getResetAdaptionProbability() == x, "the requested reset probability is set"); } break;
    case 2: ok = (x >= 0.) & (x <= 1.); vs_assert(vs_throws([&] { a.setAdaptAdaptionProbability(x); }) == !ok, "setAdaptAdaptionProbability refuses exactly the values outside of [0,1]"); if (ok) { w.aap = x; vs_assert(a.getAdaptAdaptionProbability() == x, "the requested probability of self-adaption is set"); } break;
    case 3: vs_assume(x == x); ok = x >= 0.; vs_assert(vs_throws([&] { a.setAdaptAdProb(x); }) == !ok, "setAdaptAdProb refuses negative values"); if (ok) { w.aa = x; vs_assert(a.getAdaptAdProb() == x, "the requested width is set"); } break;
    case 4: a.setAdaptionThreshold(th); w.t = th; vs_assert(a.getAdaptionThreshold() == th, "the requested threshold is set"); break;
    default: a.setAdaptionMode(adaptionMode::NEVER); w.m = adaptionMode::NEVER; vs_assert(a.getAdaptionMode() == adaptionMode::NEVER, "the requested mode is set"); break;
  }
  vs_assert(same(a, w), "a setter changes its own setting only, and nothing if it refuses");
}
VS_ENTRY(adprob_range) {
  Probe &a = *new Probe; auto s = state(a); double lo = num("lo"), hi = num("hi"); bool bad = (lo < 0.) | (hi > 1.) | (lo > hi) | (hi < DEFMINADPROB);
  vs_assert(vs_throws([&] { a.setAdProbRange(lo, hi); }) == bad, "setAdProbRange refuses exactly the invalid ranges"); if (bad) { vs_assert(same(a, s), "a refused range changes nothing"); return; }
  auto w = s; w.mn = lo < DEFMINADPROB ? DEFMINADPROB : lo; w.mx = hi; w.ap = clamped(s.ap, w.mn, w.mx); w.rs = clamped(s.rs, w.mn, w.mx); vs_assert(same(a, w), "a new range takes effect and moves the probabilities into it"); vs_assert((std::get<0>(a.getAdProbRange()) == w.mn) & (std::get<1>(a.getAdProbRange()) == hi), "getAdProbRange reports the range");
}
VS_ENTRY(construction) {
  double x = vs_f64("x"); Probe &a = *new Probe(x); vs_assert((x >= DEFMINADPROB) & (x <= DEFMAXADPROB) ? a.getAdaptionProbability() == x : x != x || (a.getAdaptionProbability() == clamped(x, DEFMINADPROB, DEFMAXADPROB)), "a new adaptor has the requested adaption probability, moved into its range");
  Probe &d = *new Probe; vs_assert((d.m_minAdProb >= DEFMINADPROB) & (d.m_minAdProb <= d.m_adProb) & (d.m_adProb <= d.m_maxAdProb) & (d.m_maxAdProb <= 1.) & (d.m_minAdProb <= d.m_adProb_reset) & (d.m_adProb_reset <= d.m_maxAdProb) & (d.m_adaptionCounter == 0), "the default settings are valid");
  Probe &c = *new Probe; auto s = state(a); c.GAdaptorT<double>::load_(&a); St<Probe> w = s; vs_assert(same(c, w), "load copies all settings"); vs_assert(same(a, s), "load leaves the source alone");
}
// what adapt() has to do, as a sequence of trials and self-adaptions
VS_ENTRY(adapting) {
  Probe &a = *new Probe; auto s = state(a); Rnd &gr = *new Rnd; std::uint64_t how = vs_choice("values", 4); std::size_t n = how == 3 ? 1 : how; double range = in("range", 0., 1e6); a.range = &range;
  std::vector<double> v(n, 1.); double x = 1.; std::size_t r = how == 3 ? a.adapt(x, range, gr) : a.adapt(v, range, gr); if (how == 3) v[0] = x;
  double p = s.ap; int k = 0;
  if (s.aa > 0.) { vs_assert(g_nnorm == 1 && (g_norm[0].mean == 0.) & (g_norm[0].sigma == s.aa), "the adaption probability is varied by a normal random number of the requested width"); p = clamped(s.ap * std::exp(g_norm[0].x), s.mn, s.mx); } else vs_assert(g_nnorm == 0, "the adaption probability is not varied unless requested");
  vs_assert((a.m_adProb == p) & (p >= s.mn) & (p <= s.mx), "the adaption probability stays inside of its range");
  std::uint32_t c = s.c; int self = 0, done = 0; bool ok = true;
  for (std::size_t i = 0; i < n; ++i) {
    bool hit = s.m == adaptionMode::ALWAYS; if (s.m == adaptionMode::WITHPROBABILITY) { vs_assert(k < g_ntrial, "each value is adapted with the adaption probability"); ok = ok & (g_p[k] == p); hit = g_trial[k++]; }
    if (!hit) { ok = ok & (v[i] == 1.); continue; } ok = ok & (v[i] == 100. + done); ++done;
    if (s.t > 0) { if (c + 1 >= s.t) { c = 0; ++self; } else ++c; }
    else if (s.aap != 0.) { vs_assert(k < g_ntrial, "self-adaption happens with its probability"); ok = ok & (g_p[k] == s.aap); if (g_trial[k++]) ++self; }
  }
  vs_assert(ok & a.ok, "values are adapted in turn, with the probability in use, and no others"); vs_assert(k == g_ntrial, "no further trials take place"); vs_assert(r == std::size_t(done) && a.adapted == done, "adapt reports the number of adapted values");
  vs_assert(a.self == self, "self-adaption takes place each time the threshold is reached, or with its probability"); auto w = s; w.ap = p; w.c = c; vs_assert(same(a, w), "adapt changes nothing else");
}
VS_ENTRY(stalls) {
  Probe &a = *new Probe; auto s = state(a); std::uint64_t n = vs_u64("stalls"); double range = 1.; bool r = false; bool threw = vs_throws([&] { r = a.updateOnStall(n, range); }); vs_assert(threw == (n == 0), "updateOnStall refuses to be called without stalls"); auto w = s; if (!threw) { w.ap = s.rs; vs_assert(r == (s.ap != s.rs), "updateOnStall reports whether anything was reset"); } vs_assert(same(a, w), "a stall resets the adaption probability and nothing else");
  GDoubleGaussAdaptor &g = *new GDoubleGaussAdaptor; auto q = state(g); double sg = in("sigma", 1e-3, 1.), sr = in("sigma_reset", 1e-3, 1.); g.sigma_ = sg; g.sigma_reset_ = sr; r = g.updateOnStall(1, range); auto v = q; v.ap = q.rs; vs_assert(same(g, v) & (g.sigma_ == sr) & (g.sigma_reset_ == sr), "a stall resets sigma and the adaption probability"); vs_assert(r == ((q.ap != q.rs) | (sg != sr)), "updateOnStall of Gauss adaptors reports whether anything was reset");
}
struct GS { double s, ss, mn, mx, r; };
template <typename A> static VS_NOINLINE GS gstate(A &a) { GS s; s.mn = in("minsigma", DEFAULTMINSIGMA, 1.); s.mx = in("maxsigma", DEFAULTMINSIGMA, 1.); vs_assume(s.mn <= s.mx); s.s = in("sigma", s.mn, s.mx); s.r = in("sigma_reset", s.mn, s.mx); s.ss = in("sigmasigma", -10., 10.); a.sigma_ = s.s; a.sigma_reset_ = s.r; a.sigmaSigma_ = s.ss; a.minSigma_ = s.mn; a.maxSigma_ = s.mx; reset_log(); return s; }
template <typename A> static VS_NOINLINE bool gsame(const A &a, const GS &s) { return (a.sigma_ == s.s) & (a.sigma_reset_ == s.r) & (a.sigmaSigma_ == s.ss) & (a.minSigma_ == s.mn) & (a.maxSigma_ == s.mx); }
VS_ENTRY(gauss_settings) {
  GDoubleGaussAdaptor &a = *new GDoubleGaussAdaptor; vs_assert((a.minSigma_ >= DEFAULTMINSIGMA) & (a.minSigma_ <= a.sigma_) & (a.sigma_ <= a.maxSigma_) & (a.maxSigma_ <= 1.) & (a.sigma_reset_ == a.sigma_), "the default sigma is valid");
  auto s = gstate(a), w = s; double x = vs_f64("x"), y = num("y"), z = num("z"); bool ok = (x >= s.mn) & (x <= s.mx);
  switch (vs_choice("op", 5)) {
    case 0: vs_assert(vs_throws([&] { a.setSigma(x); }) == !ok, "setSigma refuses exactly the values outside of the range"); if (ok) w.s = x; break;
    case 1: vs_assert(vs_throws([&] { a.setResetSigma(x); }) == !ok, "setResetSigma refuses exactly the values outside of the range"); if (ok) w.r = x; break;
    case 2: vs_assume(x == x); a.setSigmaAdaptionRate(x); w.ss = x; break;
    case 3: { bool bad = (y < 0.) | (y > z) | (z > 1.) | (z < DEFAULTMINSIGMA); vs_assert(vs_throws([&] { a.setSigmaRange(y, z); }) == bad, "setSigmaRange refuses exactly the invalid ranges"); if (!bad) { w.mn = y < DEFAULTMINSIGMA ? DEFAULTMINSIGMA : y; w.mx = z; w.s = clamped(s.s, w.mn, w.mx); w.r = clamped(s.r, w.mn, w.mx); } break; }
    default: { bool bad = (y < 0.) | (y > z) | (z > 1.) | (z < DEFAULTMINSIGMA); double mn = y < DEFAULTMINSIGMA ? DEFAULTMINSIGMA : y; vs_assume(x == x); bool bad2 = bad | !((x >= mn) & (x <= z)); vs_assert(vs_throws([&] { a.setAll(x, 0.5, y, z); }) == bad2, "setAll refuses exactly the invalid values"); w.ss = .5; if (!bad) { w.mn = mn; w.mx = z; w.s = bad2 ? clamped(s.s, mn, z) : x; w.r = clamped(s.r, mn, z); } break; }
  }
  vs_assert(gsame(a, w), "the requested settings take effect, sigma stays inside of its range, and nothing else changes");
}
VS_ENTRY(gauss_construction) {
  double x = vs_f64("x"), rate = num("rate"), y = num("y"), z = num("z"); bool prob = vs_choice("prob", 2); bool bad = (y < 0.) | (y > z) | (z > 1.) | (z < DEFAULTMINSIGMA); double mn = y < DEFAULTMINSIGMA ? DEFAULTMINSIGMA : y; bad = bad | !((x >= mn) & (x <= z)); GDoubleGaussAdaptor *a = nullptr;
  vs_assert(vs_throws([&] { a = prob ? new GDoubleGaussAdaptor(x, rate, y, z, 0.5) : new GDoubleGaussAdaptor(x, rate, y, z); }) == bad, "adaptors with invalid sigma are not created");
  if (!bad) { GS w{x, rate, mn, z, x}; vs_assert(gsame(*a, w), "a new Gauss adaptor has the requested sigma, range and adaption rate"); if (prob) vs_assert(a->m_adProb == .5, "a new Gauss adaptor has the requested adaption probability"); GDoubleGaussAdaptor &b = *new GDoubleGaussAdaptor; b.GNumGaussAdaptorT<double, double>::load_(a); vs_assert(gsame(b, w) & (b.m_adProb == a->m_adProb), "load copies the settings of Gauss adaptors"); }
}
VS_ENTRY(gauss_adaption) {
  GDoubleGaussAdaptor &a = *new GDoubleGaussAdaptor; auto s = gstate(a), w = s; Rnd &gr = *new Rnd; double range = in("range", 0., 1e6), v0 = in("value", -1e100, 1e100), v = v0;
  switch (vs_choice("op", 3)) {
    case 0: a.customAdaptAdaption(range, gr); vs_assert(g_nnorm == 1 && (g_norm[0].mean == 0.) & (g_norm[0].sigma == std::fabs(s.ss)), "sigma is varied by a normal random number of the requested width"); w.s = clamped(s.s * std::exp(g_norm[0].x), s.mn, s.mx); vs_assert((a.sigma_ >= s.mn) & (a.sigma_ <= s.mx), "sigma stays inside of its range"); break;
    case 1: a.customAdaptions(v, range, gr); vs_assert(g_nnorm == 1 && (g_norm[0].mean == 0.) & (g_norm[0].sigma == s.s), "values are varied by a normal random number of width sigma"); vs_assume(v == v); vs_assert(v == v0 + range * g_norm[0].x, "the random number is scaled with the range of the parameter and added to the value"); break;
    default: vs_assert(a.randomInit(gr) && g_nunif == 1 && (g_ua == s.mn) & (g_ub == s.mx), "random initialisation covers the range of sigma"); w.s = a.sigma_; vs_assert((a.sigma_ >= s.mn) & (a.sigma_ <= s.mx), "random initialisation keeps sigma inside of its range");
  }
  vs_assert(gsame(a, w), "sigma follows its random number and the settings are kept");
}
VS_ENTRY(int_gauss) {
  GInt32GaussAdaptor &a = *new GInt32GaussAdaptor; vs_assert((a.minSigma_ <= a.sigma_) & (a.sigma_ <= a.maxSigma_), "the default sigma of integer adaptors is valid"); auto s = gstate(a); Rnd &gr = *new Rnd; static const std::int32_t R[3] = {1, 20, 1000}; std::int32_t range = R[vs_choice("range", 3)], v0 = vs_i32("value"); vs_assume((v0 > -1000000000) & (v0 < 1000000000)); std::int32_t v = v0;
  a.customAdaptions(v, range, gr); vs_assert(g_nnorm == 1 && (g_norm[0].mean == 0.) & (g_norm[0].sigma == s.s), "integer values are varied by a normal random number of width sigma"); std::int32_t d = std::int32_t(double(range) * g_norm[0].x);
  vs_assert(d != 0 ? v == v0 + d && g_ntrial == 0 : g_ntrial == 1 && g_p[0] == .5 && v == v0 + (g_trial[0] ? 1 : -1), "integers change by the scaled random number, or by one in a random direction"); vs_assert(v != v0, "an adapted integer is different from before"); vs_assert(gsame(a, s), "adapting a value does not change the adaptor");
}
VS_ENTRY(flips) {
  Rnd &gr = *new Rnd; GInt32FlipAdaptor &f = *new GInt32FlipAdaptor; GBooleanAdaptor &b = *new GBooleanAdaptor; std::int32_t v0 = vs_i32("value"); vs_assume((v0 > -2147483647) & (v0 < 2147483647)); std::int32_t v = v0, range = 5; reset_log(); f.customAdaptions(v, range, gr); vs_assert(g_ntrial == 1 && g_p[0] == .5 && v == v0 + (g_trial[0] ? 1 : -1), "flip adaptors change an integer by one in a random direction");
  bool t = vs_bool("bool"), u = t, br = true; b.customAdaptions(u, br, gr); vs_assert(u != t, "boolean adaptors flip the value");
}
struct BS { double s1, r1, n1, x1, s2, r2, n2, x2, d, rd, nd, xd; };
static VS_NOINLINE BS bstate(GDoubleBiGaussAdaptor &a) {
  BS s; s.n1 = in("min1", DEFAULTMINSIGMA, 10.); s.x1 = in("max1", DEFAULTMINSIGMA, 10.); s.n2 = in("min2", DEFAULTMINSIGMA, 10.); s.x2 = in("max2", DEFAULTMINSIGMA, 10.); s.nd = in("mind", 0., 10.); s.xd = in("maxd", 0., 10.); vs_assume((s.n1 <= s.x1) & (s.n2 <= s.x2) & (s.nd <= s.xd)); s.s1 = in("sigma1", s.n1, s.x1); s.s2 = in("sigma2", s.n2, s.x2); s.d = in("delta", s.nd, s.xd); s.r1 = in("rate1", -5., 5.); s.r2 = in("rate2", -5., 5.); s.rd = in("rated", -5., 5.);
  a.sigma1_ = s.s1; a.sigmaSigma1_ = s.r1; a.minSigma1_ = s.n1; a.maxSigma1_ = s.x1; a.sigma2_ = s.s2; a.sigmaSigma2_ = s.r2; a.minSigma2_ = s.n2; a.maxSigma2_ = s.x2; a.delta_ = s.d; a.sigmaDelta_ = s.rd; a.minDelta_ = s.nd; a.maxDelta_ = s.xd; reset_log(); return s;
}
static VS_NOINLINE bool bsame(const GDoubleBiGaussAdaptor &a, const BS &s) { return (a.sigma1_ == s.s1) & (a.sigmaSigma1_ == s.r1) & (a.minSigma1_ == s.n1) & (a.maxSigma1_ == s.x1) & (a.sigma2_ == s.s2) & (a.sigmaSigma2_ == s.r2) & (a.minSigma2_ == s.n2) & (a.maxSigma2_ == s.x2) & (a.delta_ == s.d) & (a.sigmaDelta_ == s.rd) & (a.minDelta_ == s.nd) & (a.maxDelta_ == s.xd); }
VS_ENTRY(bigauss_settings) {
  GDoubleBiGaussAdaptor &a = *new GDoubleBiGaussAdaptor; auto s = bstate(a), w = s; double x = num("x"), y = num("y"); bool bad = (x < 0.) | (x > y) | (y < DEFAULTMINSIGMA), badd = (x < 0.) | (x > y) | (y < DEFAULTMINDELTA); double lo = x < DEFAULTMINSIGMA ? DEFAULTMINSIGMA : x;
  switch (vs_choice("op", 6)) {
    case 0: { bool ok = (x >= s.n1) & (x <= s.x1); vs_assert(vs_throws([&] { a.setSigma1(x); }) == !ok, "setSigma1 refuses exactly the values outside of the range"); if (ok) w.s1 = x; break; }
    case 1: { bool ok = (x >= s.n2) & (x <= s.x2); vs_assert(vs_throws([&] { a.setSigma2(x); }) == !ok, "setSigma2 refuses exactly the values outside of the range"); if (ok) w.s2 = x; break; }
    case 2: { bool ok = (x >= s.nd) & (x <= s.xd); vs_assert(vs_throws([&] { a.setDelta(x); }) == !ok, "setDelta refuses exactly the values outside of the range"); if (ok) w.d = x; break; }
    case 3: vs_assert(vs_throws([&] { a.setSigma1Range(x, y); }) == bad, "setSigma1Range refuses exactly the invalid ranges"); if (!bad) { w.n1 = lo; w.x1 = y; w.s1 = clamped(s.s1, lo, y); } break;
    case 4: vs_assert(vs_throws([&] { a.setSigma2Range(x, y); }) == bad, "setSigma2Range refuses exactly the invalid ranges"); if (!bad) { w.n2 = lo; w.x2 = y; w.s2 = clamped(s.s2, lo, y); } break;
    default: vs_assert(vs_throws([&] { a.setDeltaRange(x, y); }) == badd, "setDeltaRange refuses exactly the invalid ranges"); if (!badd) { w.nd = x; w.xd = y; w.d = clamped(s.d, x, y); }
  }
  vs_assert(bsame(a, w), "the requested settings take effect, both sigmas and the distance stay inside of their ranges, and nothing else changes");
}
VS_ENTRY(bigauss_adaption) {
  GDoubleBiGaussAdaptor &a = *new GDoubleBiGaussAdaptor; auto s = bstate(a), w = s; Rnd &gr = *new Rnd; double range = in("range", 0., 1e6), v0 = in("value", -1e100, 1e100), v = v0; bool sym = vs_choice("symmetric", 2); a.setUseSymmetricSigmas(sym);
  switch (vs_choice("op", 3)) {
    case 0: a.customAdaptAdaption(range, gr); vs_assert(g_nnorm == 3 && (g_norm[0].mean == 0.) & (g_norm[0].sigma == std::fabs(s.r1)) & (g_norm[1].mean == 0.) & (g_norm[1].sigma == std::fabs(s.r2)) & (g_norm[2].mean == 0.) & (g_norm[2].sigma == std::fabs(s.rd)), "sigmas and distance are varied by normal random numbers of the requested widths");
      w.s1 = clamped(s.s1 * std::exp(g_norm[0].x), s.n1, s.x1); w.s2 = clamped(s.s2 * std::exp(g_norm[1].x), s.n2, s.x2); w.d = clamped(s.d * std::exp(g_norm[2].x), s.nd, s.xd); vs_assert((a.sigma1_ >= s.n1) & (a.sigma1_ <= s.x1) & (a.sigma2_ >= s.n2) & (a.sigma2_ <= s.x2) & (a.delta_ >= s.nd) & (a.delta_ <= s.xd), "both sigmas and the distance stay inside of their ranges"); break;
    case 1: { a.customAdaptions(v, range, gr); vs_assert(g_nnorm == 1 && (g_norm[0].mean == 0.) & (g_norm[0].sigma == 1.) && g_ntrial == 1 && g_p[0] == .5, "one of the two peaks is chosen at random"); double half = std::fabs(s.d / 2.), sg = g_trial[0] || sym ? s.s1 : s.s2, x = sg * g_norm[0].x + (0. + (g_trial[0] ? -half : half)); vs_assume(v == v); vs_assert(v == v0 + range * x, "the value moves by the scaled random number of the chosen peak"); break; }
    default: vs_assert(a.randomInit(gr) && g_nunif == 3, "random initialisation covers sigmas and distance"); w.s1 = a.sigma1_; w.s2 = a.sigma2_; w.d = a.delta_; vs_assert((a.sigma1_ >= s.n1) & (a.sigma1_ <= s.x1) & (a.sigma2_ >= s.n2) & (a.sigma2_ <= s.x2) & (a.delta_ >= s.nd) & (a.delta_ <= s.xd), "random initialisation keeps sigmas and distance inside of their ranges");
  }
  vs_assert(bsame(a, w), "sigmas and distance follow their random numbers and the settings are kept");
}
VS_ENTRY(bigauss_more) {
  GDoubleBiGaussAdaptor &a = *new GDoubleBiGaussAdaptor; auto g = state(a); auto s = bstate(a), w = s; bool sym = vs_bool("symmetric"); a.setUseSymmetricSigmas(sym); vs_assert(a.getUseSymmetricSigmas() == sym, "the symmetry is stored");
  double x = num("x"), r = num("rate"), y = num("y"), z = num("z"); bool bad = (y < 0.) | (y > z) | (z < DEFAULTMINSIGMA), badd = (y < 0.) | (y > z) | (z < DEFAULTMINDELTA); double lo = y < DEFAULTMINSIGMA ? DEFAULTMINSIGMA : y; bool t;
  switch (vs_choice("op", 7)) {
    case 0: a.setSigma1AdaptionRate(r); w.r1 = r; vs_assert(a.getSigma1AdaptionRate() == r, "adaption rates are stored"); break;
    case 1: a.setSigma2AdaptionRate(r); w.r2 = r; vs_assert(a.getSigma2AdaptionRate() == r, "adaption rates are stored"); break;
    case 2: a.setDeltaAdaptionRate(r); w.rd = r; vs_assert(a.getDeltaAdaptionRate() == r, "adaption rates are stored"); break;
    case 3: t = vs_throws([&] { a.setAllSigma1(x, r, y, z); }); vs_assert(t == (bad | !((x >= lo) & (x <= z))), "setAllSigma1 refuses exactly the invalid values"); w.r1 = r; if (!bad) { w.n1 = lo; w.x1 = z; w.s1 = t ? clamped(s.s1, lo, z) : x; } break;
    case 4: t = vs_throws([&] { a.setAllSigma2(x, r, y, z); }); vs_assert(t == (bad | !((x >= lo) & (x <= z))), "setAllSigma2 refuses exactly the invalid values"); w.r2 = r; if (!bad) { w.n2 = lo; w.x2 = z; w.s2 = t ? clamped(s.s2, lo, z) : x; } break;
    case 5: t = vs_throws([&] { a.setAllDelta(x, r, y, z); }); vs_assert(t == (badd | !((x >= y) & (x <= z))), "setAllDelta refuses exactly the invalid values"); w.rd = r; if (!badd) { w.nd = y; w.xd = z; w.d = t ? clamped(s.d, y, z) : x; } break;
    default: { vs_assert((a.getSigma1() == s.s1) & (a.getSigma2() == s.s2) & (a.getDelta() == s.d) & (std::get<0>(a.getSigma1Range()) == s.n1) & (std::get<1>(a.getSigma1Range()) == s.x1) & (std::get<0>(a.getSigma2Range()) == s.n2) & (std::get<1>(a.getSigma2Range()) == s.x2) & (std::get<0>(a.getDeltaRange()) == s.nd) & (std::get<1>(a.getDeltaRange()) == s.xd), "sigmas, distance and ranges are reported");
      GDoubleBiGaussAdaptor &b = *new GDoubleBiGaussAdaptor, &c = *new GDoubleBiGaussAdaptor(a); b.setUseSymmetricSigmas(!sym); b.load_(&a); vs_assert(bsame(b, s) & bsame(c, s) & same(b, g) & same(c, g) & (b.getUseSymmetricSigmas() == sym) & (c.getUseSymmetricSigmas() == sym), "copies of bi-Gauss adaptors carry all settings"); }
  }
  vs_assert(bsame(a, w) & same(a, g) & (a.getUseSymmetricSigmas() == sym), "the requested settings take effect and nothing else changes");
}
template <typename A> static VS_NOINLINE bool asks(A &a, const char *who, const char *what, double &x, bool &t) { std::vector<boost::any> v; t = vs_throws([&] { a.queryPropertyFrom(who, what, v); }); if (v.size() != 1) return false; x = boost::any_cast<double>(v[0]); return true; }
VS_ENTRY(queries) {
  double x = 0.; bool t = false, got;
  switch (vs_choice("type", 2)) {
    case 0: { GDoubleGaussAdaptor &a = *new GDoubleGaussAdaptor; double p = in("adprob", 0.1, 1.), sg = in("sigma", 0.1, 1.); a.m_adProb = p; a.sigma_ = sg;
      switch (vs_choice("what", 4)) { case 0: got = asks(a, "GDoubleGaussAdaptor", "adProb", x, t); vs_assert(got && !t && x == p, "queries report the adaption probability"); break; case 1: got = asks(a, "GDoubleGaussAdaptor", "sigma", x, t); vs_assert(got && !t && x == sg, "queries report sigma"); break; case 2: got = asks(a, "GDoubleGaussAdaptor", "sigma3", x, t); vs_assert(!got && t, "unknown properties are refused"); break; default: got = asks(a, "GInt32GaussAdaptor", "sigma", x, t); vs_assert(!got && !t, "queries for other adaptors are ignored"); } break; }
    default: { GDoubleBiGaussAdaptor &a = *new GDoubleBiGaussAdaptor; double s1 = in("sigma1", 0.1, 1.), s2 = in("sigma2", 0.1, 1.), d = in("delta", 0.1, 1.); a.sigma1_ = s1; a.sigma2_ = s2; a.delta_ = d;
      switch (vs_choice("what", 3)) { case 0: got = asks(a, "GDoubleBiGaussAdaptor", "sigma1", x, t); vs_assert(got && !t && x == s1, "queries report the first sigma"); break; case 1: got = asks(a, "GDoubleBiGaussAdaptor", "sigma2", x, t); vs_assert(got && !t && x == s2, "queries report the second sigma"); break; default: got = asks(a, "GDoubleBiGaussAdaptor", "delta", x, t); vs_assert(got && !t && x == d, "queries report the distance of the peaks"); } }
  }
}
