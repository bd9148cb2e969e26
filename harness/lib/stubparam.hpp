// A parameter that records what is done to it.
// vs: link src/geneva/GParameterBase.cpp
#pragma once
struct SP : GParameterBase {
  int told = 0, inits = 0, adapts = 0, asked = 0; std::size_t n = 0, res = 1; bool changed = true; activityMode am = activityMode::ALLPARAMETERS;
  SP() = default; SP(const SP &) = default;
  GObject *clone_() const override { return new SP(*this); }
  std::size_t adapt_(Gem::Hap::GRandomBase &) override { ++adapts; return res; }
  bool randomInit_(const activityMode &a, Gem::Hap::GRandomBase &) override { ++inits; am = a; return changed; }
  bool updateAdaptorsOnStall_(std::size_t k) override { ++told; n = k; return true; }
  void toPropertyTree(boost::property_tree::ptree &, const std::string &) const override {}
  void queryAdaptor_(const std::string &, const std::string &, std::vector<boost::any> &) const override { ++const_cast<SP *>(this)->asked; }
};
