// Individuals and algorithm plumbing shared by the contracts of the Geneva layer.
// vs: link src/common/GCommonHelperFunctions.cpp src/common/GCommonEnums.cpp src/common/GCommonMathHelperFunctions.cpp src/courtier/GCourtierEnums.cpp src/geneva/GParameterSet.cpp src/geneva/GObject.cpp src/geneva/GPersonalityTraits.cpp src/geneva/GenevaHelperFunctions.cpp src/geneva/G_Interface_Rateable.cpp src/geneva/GParameterSetFixedSizePriorityQueue.cpp
// vs: nlink src/courtier/GCourtierHelperFunctions.cpp src/common/GExceptions.cpp src/common/GLogger.cpp src/common/GThreadGroup.cpp src/common/GThreadPool.cpp src/common/GExpectationChecksT.cpp src/common/GParserBuilder.cpp src/common/GPlotDesigner.cpp src/geneva/GOptimizationEnums.cpp src/geneva/GParameterBase.cpp src/hap/GRandomBase.cpp src/hap/GRandomFactory.cpp
// vs: opaque ^Gem::Hap::GRandomT<.*>::~?GRandomT\( => noop
// vs: opaque ^Gem::Common::(GPlotDesigner|GGraph2D|GBasePlotter):: => noop
#pragma once
#include "geneva/GParameterSet.hpp"
#include "geneva/GParameterSetFixedSizePriorityQueue.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
#include "vs.hpp"
#include <stdexcept>
using namespace Gem::Geneva;
using Gem::Courtier::processingStatus;
static int g_evals = 0;
struct Ind : GParameterSet {
  double fit = 0; int outcome = 0, tag = 0, adapted = 0; double fit2 = 0;
  explicit Ind(std::size_t n = 1) : GParameterSet(n) {}
  Ind(const Ind &) = default;
  GObject *clone_() const override { return new Ind(*this); }
  void load_(const GObject *o) override { const Ind *p = static_cast<const Ind *>(o); GParameterSet::load_(o); fit = p->fit; fit2 = p->fit2; outcome = p->outcome; tag = p->tag; adapted = p->adapted; }
  double fitnessCalculation() override { ++g_evals; if (outcome == 1) throw std::runtime_error("x"); if (outcome == 2) force_set_error("flagged"); if (getNStoredResults() > 1) setResult(1, fit2); return fit; }
};
using IP = std::shared_ptr<GParameterSet>;
static const char *ID[8] = {"i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"};
// an individual that has been processed with raw fitness r and transformed fitness t
static VS_NOINLINE std::shared_ptr<Ind> processed(double r, double t, maxMode m, int id) {
  auto p = std::make_shared<Ind>(); p->m_maxmode = m; p->m_processing_status = processingStatus::PROCESSED; p->m_stored_results_cnt[0] = parameterset_processing_result(r, t); p->m_evaluation_id = ID[id]; p->tag = id; p->fit = r; return p;
}
static Ind *ind(const IP &p) { return static_cast<Ind *>(p.get()); }
static VS_NOINLINE maxMode mode(std::uint64_t k) { return k ? maxMode::MAXIMIZE : maxMode::MINIMIZE; }
// finite doubles
static VS_NOINLINE double fin(const char *n) { double x = vs_f64(n); vs_assume((x > -1.7e308) & (x < 1.7e308)); return x; }
static bool better(double a, double b, maxMode m) { return m == maxMode::MAXIMIZE ? a > b : a < b; }
struct PT : GPersonalityTraits { std::string name_() const override { return "PT"; } std::string getMnemonic() const override { return "pt"; } GObject *clone_() const override { return new PT(*this); } };
