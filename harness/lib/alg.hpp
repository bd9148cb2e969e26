// Optimisation algorithms: random numbers, executors and thread pools by contract.
// vs: noinline
// vs: link src/geneva/G_OptimizationAlgorithm_Base.cpp src/courtier/GCourtierHelperFunctions.cpp
// vs: opaque ^Gem::Common::touch_time => noop
// vs: model ^decltype\(auto\) Gem::Common::GThreadPool::async_schedule|^std::future<.*> Gem::Common::GThreadPool::async_schedule => vs_model_schedule
// vs: model ^std::future<unsigned long>::get\(\) => vs_model_zero
// vs: opaque ^Gem::Common::GThreadPool:: => noop
// vs: contract random numbers: uniform distributions return any value of the requested range (which must not be empty), Bernoulli trials and shuffles any outcome
// vs: contract thread pools run each task exactly once (symbolic runs only; the native runs use the real pool)
#pragma once
#include "geneva/G_OptimizationAlgorithm_Base.hpp"
#include "ind.hpp"
#include <algorithm>
#include <random>
using RG = Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMPROXY>;
static double g_last_real = 0, g_unit = 0; static bool g_same_unit = false; static int g_nreal = 0; // g_same_unit: all numbers drawn from [0,1) are g_unit
static VS_NOINLINE double draw_real(double a, double b) { ++g_nreal; if (g_same_unit && a == 0. && b == 1.) return g_unit; double x = vs_f64("rnd"); vs_assume((x >= a) & (x < b)); return x; }
namespace std {
template <> template <> unsigned long uniform_int_distribution<unsigned long>::operator()<RG>(RG &, const param_type &p) { vs_assert(p.a() <= p.b(), "random positions are requested from a range that is not empty"); return p.a() + vs_choice("rnd_pos", p.b() - p.a() + 1); }
template <> template <> double uniform_real_distribution<double>::operator()<RG>(RG &, const param_type &p) { double x = draw_real(p.a(), p.b()); g_last_real = x; return x; }
template <> bool bernoulli_distribution::operator()<RG>(RG &, const param_type &p) { bool x = vs_choice("trial", 2); vs_assume(x ? p.p() > 0 : p.p() < 1); return x; }
template <> void shuffle<__gnu_cxx::__normal_iterator<IP *, std::vector<IP>>, RG &>(__gnu_cxx::__normal_iterator<IP *, std::vector<IP>> b, __gnu_cxx::__normal_iterator<IP *, std::vector<IP>> e, RG &) { auto n = e - b; if (n > 1) std::swap(*b, *(b + vs_choice("shuffle", n))); }
}
// an individual that counts what is done to it
struct EInd : Ind {
  int inits = 0; 
  explicit EInd(std::size_t n = 1) : Ind(n) {}
  EInd(const EInd &) = default;
  GObject *clone_() const override { return new EInd(*this); }
  std::size_t customAdaptions() override { ++adapted; return 1; }
  bool randomInit_(const activityMode &am) override { vs_assert(am == activityMode::ACTIVEONLY, "only active parameters are initialised"); ++inits; return true; }
  std::shared_ptr<GParameterSet> crossOverWith(const std::shared_ptr<GParameterSet> &o) const override { auto p = std::make_shared<EInd>(*this); p->tag = 100 + 10 * tag + static_cast<const Ind *>(o.get())->tag; p->mark_as_due_for_processing(); return p; }
};
static EInd *eind(const IP &p) { return static_cast<EInd *>(p.get()); }
// the executor by contract: each item that is due is processed, stays out, or comes back with an error; late items of earlier iterations may arrive
enum { O_OK, O_LOST, O_ERROR };
static double raw_of(double f) { return -f; } // raw and transformed fitness have opposite signs: decisions depend on the latter
struct Exec : Gem::Courtier::GBaseExecutorT<GParameterSet> {
  using B = Gem::Courtier::GBaseExecutorT<GParameterSet>;
  std::vector<IP> late; int submitted = 0; bool resub = false;
  Exec() = default;
  Exec(const Exec &) = default;
  B *clone_() const override { return new Exec(*this); }
  std::string name_() const override { return "Exec"; }
  std::chrono::high_resolution_clock::time_point determineInitialCycleStartTime() const override { return getObjectFirstSubmissionTime(); }
  void visualize_performance() override {}
  void submit(IP p) override { ++submitted; Ind *i = ind(p); if (i->outcome == O_OK) { i->m_processing_status = processingStatus::PROCESSED; i->m_stored_results_cnt[0] = parameterset_processing_result(raw_of(i->fit), i->fit); } else if (i->outcome == O_ERROR) i->m_processing_status = processingStatus::EXCEPTION_CAUGHT; }
  Gem::Courtier::executor_status_t waitForReturn(std::vector<IP> &w, std::vector<IP> &old) override { for (auto &p : late) old.push_back(p); return checkExecutionState(w); }
};
static std::int64_t g_now = 1000000000000;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(g_now += 1000)); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(g_now += 1000)); }
