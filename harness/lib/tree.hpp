// Parameter trees: leaves of every kind below nested collections, adaptors and random numbers by contract.
// The unit defines T and the macros CO, UO, CC, UC, COC (constrained / unconstrained object, constrained / unconstrained collection, collection of objects) and FOREIGN.
// vs: noinline
// vs: link src/geneva/GParameterBase.cpp src/geneva/GParameterObjectCollection.cpp src/geneva/GObject.cpp src/geneva/GAdaptorT.cpp src/common/GCommonHelperFunctions.cpp src/common/GCommonMathHelperFunctions.cpp src/geneva/GDoubleObject.cpp src/geneva/GDoubleCollection.cpp src/geneva/GDoubleObjectCollection.cpp src/geneva/GConstrainedDoubleObject.cpp src/geneva/GConstrainedDoubleCollection.cpp src/geneva/GConstrainedDoubleObjectCollection.cpp src/geneva/GInt32Object.cpp src/geneva/GInt32Collection.cpp src/geneva/GConstrainedInt32Object.cpp src/geneva/GConstrainedInt32ObjectCollection.cpp src/geneva/GBooleanObject.cpp src/geneva/GBooleanCollection.cpp src/geneva/GBooleanObjectCollection.cpp
// vs: nlink src/common/GLogger.cpp src/common/GExceptions.cpp src/common/GExpectationChecksT.cpp src/common/GParserBuilder.cpp src/common/GCommonEnums.cpp src/hap/GRandomBase.cpp src/hap/GRandomFactory.cpp src/common/GThreadGroup.cpp src/geneva/GOptimizationEnums.cpp src/geneva/GBooleanAdaptor.cpp src/geneva/GInt32FlipAdaptor.cpp src/geneva/GDoubleGaussAdaptor.cpp src/geneva/GInt32ObjectCollection.cpp
// vs: opaque ^Gem::Hap::GRandomT<.*>::~?GRandomT\( => noop
// vs: contract adaptors: an adaptor replaces the value by an arbitrary one and reports that it did so (the concrete adaptors are the subject of G06)
// vs: model ^Gem::Geneva::GConstrainedFPT<double>::transfer\(double const&\) const => vs_model_transfer
// vs: model ^Gem::Geneva::GConstrainedFPNumCollectionT<double>::transfer\(double const&\) const => vs_model_transfer_c
// vs: model ^Gem::Geneva::GConstrainedIntT<int>::transfer\(int const&\) const => vs_model_transfer_i
// vs: model ^std::_Bit_reference::operator=\(bool\) => vs_model_bit
// vs: contract std::vector<bool>: assignment to an element stores the bit
// vs: contract transfer functions: the identity inside of (and on) the boundaries, any (fixed) value inside of the boundaries for values outside (proved in C01); values that transfer refuses are not considered
// vs: contract random numbers: uniform distributions return any value of the requested range
#pragma once
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GConstrainedInt32ObjectCollection.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GBooleanCollection.hpp"
#include "geneva/GBooleanObjectCollection.hpp"
#include "vs.hpp"
#include <random>
using namespace Gem::Geneva;
using GB = Gem::Hap::GRandomBase;
struct Rnd : GB { result_type int_random() override { return 0; } };
static double g_real[8]; static int g_nreal = 0; static std::int32_t g_int[8]; static int g_nint = 0; static bool g_bern[8]; static int g_nbern = 0;
static double rnd_real(double, double);
namespace std {
template <> template <> double uniform_real_distribution<double>::operator()<GB>(GB &, const param_type &p) { double x = rnd_real(p.a(), p.b()); if (g_nreal < 8) g_real[g_nreal++] = x; return x; }
template <> template <> int uniform_int_distribution<int>::operator()<GB>(GB &, const param_type &p) { vs_assert(p.a() <= p.b(), "random integers are requested from a range that is not empty"); int x = vs_i32("rndi"); vs_assume((x >= p.a()) & (x <= p.b())); if (g_nint < 8) g_int[g_nint++] = x; return x; }
template <> template <> double normal_distribution<double>::operator()<GB>(GB &, const param_type &) { double x = vs_f64("rndn"); vs_assume((x > -1e3) & (x < 1e3)); return x; }
template <> bool bernoulli_distribution::operator()<GB>(GB &, const param_type &p) { bool x = vs_choice("trial", 2); vs_assume(x ? p.p() > 0 : p.p() < 1); if (g_nbern < 8) g_bern[g_nbern++] = x; return x; }
}
template <typename V> struct Adp : GAdaptorT<V, double> {
  using B = GAdaptorT<V, double>;
  static int calls; static V next; static V range_seen;
  Adp() { B::setAdaptionMode(adaptionMode::ALWAYS); B::setAdaptionThreshold(0); B::setAdaptAdaptionProbability(0.); B::setAdaptAdProb(0.); }
  Adp(const Adp &) = default;
  GObject *clone_() const override { return new Adp(*this); }
  std::string name_() const override { return "Adp"; }
  bool randomInit(GB &) override { return false; }
  adaptorId getAdaptorId_() const override { return adaptorId::GDOUBLEGAUSSADAPTOR; }
  void customAdaptions(V &v, const V &r, GB &) override { ++calls; v = next; range_seen = r; }
  bool modify_GUnitTests_() override { return false; } void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {}
};
template <typename V> int Adp<V>::calls = 0;
template <typename V> V Adp<V>::next{};
template <typename V> V Adp<V>::range_seen{};
namespace Gem { namespace Geneva {
template <> std::shared_ptr<GAdaptorT<double>> getDefaultAdaptor<double>() { return std::make_shared<Adp<double>>(); }
template <> std::shared_ptr<GAdaptorT<std::int32_t>> getDefaultAdaptor<std::int32_t>() { return std::make_shared<Adp<std::int32_t>>(); }
template <> std::shared_ptr<GAdaptorT<bool>> getDefaultAdaptor<bool>() { return std::make_shared<Adp<bool>>(); }
} }
static VS_NOINLINE activityMode amode(std::uint64_t k) { return k == 0 ? activityMode::ALLPARAMETERS : k == 1 ? activityMode::ACTIVEONLY : activityMode::INACTIVEONLY; }
static double vs_fold(double v, double lo, double hi) { if ((v >= lo) & (v <= hi)) return v; double r = std::atan2(v, hi); vs_assume((r >= lo) & (r <= hi)); return r; }
extern "C" double vs_model_transfer(const GConstrainedFPT<double> *o, const double &v) { return vs_fold(v, o->GConstrainedNumT<double>::getLowerBoundary(), o->GConstrainedNumT<double>::getUpperBoundary()); }
extern "C" double vs_model_transfer_c(const GConstrainedFPNumCollectionT<double> *o, const double &v) { return vs_fold(v, o->GConstrainedNumCollectionT<double>::getLowerBoundary(), o->GConstrainedNumCollectionT<double>::getUpperBoundary()); }
extern "C" std::int32_t vs_model_transfer_i(const GConstrainedIntT<std::int32_t> *o, const std::int32_t &v) { std::int32_t lo = o->GConstrainedNumT<std::int32_t>::getLowerBoundary(), hi = o->GConstrainedNumT<std::int32_t>::getUpperBoundary(); if ((v >= lo) & (v <= hi)) return v; std::int32_t r = vs_uf_i32(v, hi); vs_assume((r >= lo) & (r <= hi)); return r; }
extern "C" std::_Bit_reference &vs_model_bit(std::_Bit_reference *b, bool x) { *b->_M_p = (*b->_M_p & ~b->_M_mask) | (-static_cast<unsigned long>(x) & b->_M_mask); return *b; }
