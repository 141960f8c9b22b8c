// What cross validation of a model did, in the vocabulary of spec/CrossValidation.tla.
#pragma once
#include "gp_check.hpp"
#include <albatross/Evaluation>
using Ks = std::vector<int>;
inline J jkey(int k) { return j(k); }
inline J jkey(std::size_t k) { return j(static_cast<int>(k)); }
inline J jkey(const std::string &k) { return j(std::stoi(k.substr(1))); } // "g3"

template <typename G> J jmeans(const G &g) {
  std::vector<J> o;
  for (const auto &p : g)
    o.push_back(obj({{"k", jkey(p.first)}, {"mean", jv(p.second)}}));
  return j(o);
}
template <typename G> J jmargs(const G &g) {
  std::vector<J> o;
  for (const auto &p : g)
    o.push_back(obj({{"k", jkey(p.first)}, {"mean", jv(p.second.mean)}, {"var", jv(p.second.covariance.diagonal())}}));
  return j(o);
}
template <typename G> J jjoints(const G &g) {
  std::vector<J> o;
  for (const auto &p : g)
    o.push_back(obj({{"k", jkey(p.first)}, {"mean", jv(p.second.mean)}, {"cov", jm(p.second.covariance)}}));
  return j(o);
}
inline J how(const char *h) { return j(h); }
template <typename G> void log_means(const char *h, const G &g) { step({{"op", j("means")}, {"how", how(h)}, {"out", jmeans(g)}}); }
template <typename G> void log_marginals(const char *h, const G &g) { step({{"op", j("marginals")}, {"how", how(h)}, {"out", jmargs(g)}}); }
template <typename G> void log_joints(const char *h, const G &g) { step({{"op", j("joints")}, {"how", how(h)}, {"out", jjoints(g)}}); }
inline void log_flat(const char *h, const Eigen::VectorXd &mean, const Eigen::VectorXd &var = {}) {
  step({{"op", j("flat")}, {"how", how(h)}, {"mean", jv(mean)}, {"var", jv(var)}});
}
inline void log_scores(const char *h, const char *metric, const Eigen::VectorXd &out) {
  step({{"op", j("scores")}, {"how", how(h)}, {"metric", j(metric)}, {"out", jv(out)}});
}
inline double probe_metric(const Eigen::VectorXd &pred, const al::MarginalDistribution &truth) {
  return pred[0] + 3. * (truth.mean[truth.mean.size() - 1] + truth.covariance.diagonal()[0]);
}
struct Probe : public al::PredictionMetric<Eigen::VectorXd> {
  Probe() : al::PredictionMetric<Eigen::VectorXd>(probe_metric) {}
};
template <typename X> void log_data(const al::RegressionDataset<X> &d) { step(jdata("data", d)); }
inline void log_keys(const Ks &keys) { step({{"op", j("keys")}, {"keys", j(keys)}}); }
template <typename K> void log_groups(const al::GroupIndexer<K> &g) {
  std::vector<J> o;
  for (const auto &p : g) {
    std::vector<int> idx(p.second.begin(), p.second.end());
    o.push_back(obj({{"k", jkey(p.first)}, {"idx", j(idx)}}));
  }
  step({{"op", j("groups")}, {"groups", j(o)}});
}
template <typename Fs> void log_folds(const Fs &folds) {
  std::vector<J> o;
  for (const auto &p : folds) {
    const auto &f = p.second;
    std::vector<int> idx(f.test_indices.begin(), f.test_indices.end());
    o.push_back(obj({{"k", jkey(p.first)}, {"idx", j(idx)}, {"test", jfs(f.test_dataset.features)}, {"y", jv(f.test_dataset.targets.mean)},
                     {"noise", jv(f.test_dataset.targets.covariance.diagonal())}, {"train", jfs(f.train_dataset.features)}}));
  }
  step({{"op", j("fold")}, {"out", j(o)}});
}
struct IntKey {
  using type = int;
  static int of(int k) { return k; }
};
struct TextKey {
  using type = std::string;
  static std::string of(int k) { return k < 10 ? "g0" + std::to_string(k) : "g" + std::to_string(k); }
};
// the groups as an indexer built by hand
template <typename K> al::GroupIndexer<typename K::type> indexer_of(const Ks &keys) {
  al::GroupIndexer<typename K::type> out;
  for (std::size_t i = 0; i < keys.size(); ++i)
    out[K::of(keys[i])].push_back(i);
  return out;
}
inline Ks some_keys(std::size_t n, Rng &rng) {
  const int m = rng.pick(n > 12 ? std::vector<int>{1, 14, 30} : std::vector<int>{1, 2, 3, 9});
  Ks keys;
  for (std::size_t i = 0; i < n; ++i)
    keys.push_back(rng.range(0, m));
  return keys;
}
void cv_gp(Rng &rng, const Args &args, const std::vector<Ks> &enumerated);
void cv_generic(Rng &rng, const Args &args, const std::vector<Ks> &enumerated);
