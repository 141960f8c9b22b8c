// What the consensus loop did, in the vocabulary of spec/Ransac.tla.
#pragma once
#include "gp_check.hpp"
#include <albatross/Evaluation>
#include <albatross/Ransac>
using Keys = std::vector<int>;
inline Keys sorted(Keys k) {
  std::sort(k.begin(), k.end());
  return k;
}
inline J jit(const al::RansacIteration<int> &it) {
  return obj({{"candidates", j(it.candidates)}, {"inliers", j(it.inliers)}, {"outliers", j(it.outliers)}, {"metric", j(it.consensus_metric_value)}});
}
inline void log_begin(const Keys &groups, double threshold, std::size_t sample, std::size_t min, std::size_t max, std::size_t failed) {
  step({{"op", j("begin")}, {"groups", j(groups)}, {"threshold", j(threshold)}, {"sample", j(sample)}, {"min", j(min)}, {"max", j(max)}, {"max_failed", j(failed)}});
}
// answers: what the user's functions say about the candidates of an iteration, asked again
template <typename Answers> void log_output(const al::RansacOutput<int> &out, Answers &&answers) {
  for (std::size_t i = 0; i < out.iterations.size(); ++i) {
    const auto &it = out.iterations[i];
    step({{"op", j("iterate")}, {"it", jit(it)}, {"f", answers(i, it)}});
  }
  step({{"op", j("end")}, {"code", j(al::to_string(out.return_code))}, {"best", jit(out.best)}, {"consensus", j(out.best.consensus())}});
}
// asks functions of the candidates alone
template <typename Fit> J ask(const al::RansacFunctions<Fit, int> &f, const Keys &groups, const al::RansacIteration<int> &it) {
  const bool valid = f.is_valid_candidate(it.candidates);
  std::vector<std::pair<int, double>> metrics;
  if (valid) {
    const auto fit = f.fitter(it.candidates);
    for (const int g : groups)
      if (std::find(it.candidates.begin(), it.candidates.end(), g) == it.candidates.end())
        metrics.push_back({g, f.inlier_metric(g, fit)});
  }
  const double consensus = valid && !std::isnan(it.consensus_metric_value) ? f.consensus_metric(it.consensus()) : NAN;
  return obj({{"valid", j(valid)}, {"metrics", j(metrics)}, {"consensus", j(consensus)}});
}
void ransac_gp(Rng &rng, const Args &args);
