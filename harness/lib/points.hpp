// Individuals made of real parameters, and floating point helpers of the contracts of algorithms that move points.
// vs: link src/geneva/GDoubleObject.cpp src/geneva/GInt32Object.cpp src/geneva/GBooleanObject.cpp src/geneva/GParameterBase.cpp src/geneva/GAdaptorT.cpp
// vs: nlink src/geneva/GBooleanAdaptor.cpp src/geneva/GInt32FlipAdaptor.cpp src/geneva/GDoubleGaussAdaptor.cpp
#pragma once
#include "geneva/GDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "alg.hpp"
#include <cmath>
template <typename V> struct DAdp : GAdaptorT<V, double> { // objects carry an adaptor, which these algorithms do not use
  GObject *clone_() const override { return new DAdp(*this); }
  std::string name_() const override { return "DAdp"; }
  bool randomInit(Gem::Hap::GRandomBase &) override { return false; }
  adaptorId getAdaptorId_() const override { return adaptorId::GDOUBLEGAUSSADAPTOR; }
  void customAdaptions(V &, const V &, Gem::Hap::GRandomBase &) override { vs_assert(false, "these algorithms do not adapt parameters"); }
  bool modify_GUnitTests_() override { return false; } void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {}
};
namespace Gem { namespace Geneva { template <> std::shared_ptr<GAdaptorT<double>> getDefaultAdaptor<double>() { return std::make_shared<DAdp<double>>(); }
template <> std::shared_ptr<GAdaptorT<std::int32_t>> getDefaultAdaptor<std::int32_t>() { return std::make_shared<DAdp<std::int32_t>>(); }
template <> std::shared_ptr<GAdaptorT<bool>> getDefaultAdaptor<bool>() { return std::make_shared<DAdp<bool>>(); } } }
static bool near(double a, double b) { return vs_is_symbolic() ? vs_same(a, b) : std::fabs(a - b) <= 1e-7; }
static VS_NOINLINE double small(const char *n) { double x = vs_ranged(n, -10., 10.); vs_assume((x >= -10.) & (x <= 10.)); return x; }
static VS_NOINLINE double plus(double a, double b) { return a + b; }
static VS_NOINLINE double minus(double a, double b) { return a - b; }
static VS_NOINLINE double over_(double a, double b) { return a / b; }
static VS_NOINLINE void set(double &a, double b) { a = b; }
static double coord(const IP &p, std::size_t i) { return static_cast<GDoubleObject *>(p->at(i).get())->value(); }
