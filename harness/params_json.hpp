// Parameters and their priors in the vocabulary of spec/Parameters.tla.
#pragma once
#include "common.hpp"
#include <albatross/Core>
namespace al = albatross;
using namespace verif;
using al::Parameter;
using al::ParameterStore;
using al::PriorContainer;

inline J jprior(const PriorContainer &p) {
  auto rec = [](const char *t, double a, double b) { return obj({{"t", j(t)}, {"a", j(a)}, {"b", j(b)}}); };
  struct V {
    decltype(rec) &r;
    J operator()(const al::UninformativePrior &) const { return r("uninformative", 0, 0); }
    J operator()(const al::FixedPrior &) const { return r("fixed", 0, 0); }
    J operator()(const al::NonNegativePrior &) const { return r("non_negative", 0, 0); }
    J operator()(const al::PositivePrior &) const { return r("positive", 0, 0); }
    J operator()(const al::UniformPrior &p) const { return r("uniform", p.lower_, p.upper_); }
    J operator()(const al::LogScaleUniformPrior &p) const { return r("log_scale_uniform", p.lower_, p.upper_); }
    J operator()(const al::GaussianPrior &p) const { return r("gaussian", p.mu_, p.sigma_); }
    J operator()(const al::LogNormalPrior &p) const { return r("log_normal", p.mu_, p.sigma_); }
    J operator()(const al::PositiveGaussianPrior &p) const { return r("positive_gaussian", p.mu_, p.sigma_); }
  };
  return p.priors_.match(V{rec});
}
inline J jrec(const std::string &n, const Parameter &p) { return obj({{"n", j(n)}, {"v", j(p.value)}, {"p", jprior(p.prior)}}); }
inline J jstore(const ParameterStore &s) {
  std::vector<J> v;
  for (const auto &kv : s)
    v.push_back(jrec(kv.first, kv.second));
  return arr(v);
}

