// What a fitted Gaussian process did, in the vocabulary of spec/GaussianProcess.tla.
#pragma once
#include "kernels.hpp"
#include <albatross/Dataset>
#include <albatross/Indexing>
using albatross::operator*;
using VDS = Var<double, Site>;
template <typename X> using LC = al::LinearCombination<X>;

template <typename D> J jjoint(const D &d) { return obj({{"mean", jv(d.mean)}, {"cov", jm(d.covariance)}}); }
inline J jmarg(const al::MarginalDistribution &d) {
  return obj({{"mean", jv(d.mean)}, {"var", jv(d.covariance.diagonal())}});
}
inline Eigen::VectorXd dyadics(int n, Rng &rng, int lo = -64, int hi = 64, double s = 0.125) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i)
    v[i] = rng.dyadic(lo, hi, s);
  return v;
}
// what values are measured in; a power of two
inline double &unit() {
  static double u = 1.;
  return u;
}
inline al::MarginalDistribution some_targets(int n, Rng &rng) {
  return {unit() * dyadics(n, rng), unit() * unit() * dyadics(n, rng, 1, 12, 0.25)};
}
template <typename X> al::RegressionDataset<X> some_data(int n, Rng &rng, bool repeat = true) {
  auto xs = features<X>(n, rng);
  if (repeat && n > 1 && rng.chance(1, 3))
    xs[static_cast<std::size_t>(n - 1)] = xs[0]; // the same place measured twice
  return {xs, some_targets(n, rng)};
}
template <typename D> Fields jdata(const char *op, const D &d) {
  return {{"op", j(op)}, {"xs", jfs(d.features)}, {"y", jv(d.targets.mean)}, {"noise", jv(d.targets.covariance.diagonal())}};
}
template <typename F, typename D> void log_fit(const F &fit, const D &d) {
  Fields f = jdata("fit", d);
  f.push_back({"train", jfs(fit.get_fit().train_features)});
  f.push_back({"information", jv(fit.get_fit().information)});
  step(f);
}
template <typename F, typename X> void log_predict(const char *kind, const F &fit, const std::vector<X> &xs, Rng &rng) {
  const auto pred = fit.predict(xs);
  al::JointDistribution joint = pred.joint();
  al::MarginalDistribution marginal = pred.marginal();
  Eigen::VectorXd mean = pred.mean();
  if (rng.chance(1, 4)) { // the same through the generic interface, and from a moved fit
    joint = pred.template get<al::JointDistribution>();
    marginal = al::MarginalDistribution(pred);
    auto copy = fit;
    mean = std::move(copy).predict(xs).mean();
  }
  step({{"op", j("predict")}, {"kind", j(kind)}, {"xs", jfs(xs)}, {"mean", jv(mean)}, {"marginal", jmarg(marginal)}, {"joint", jjoint(joint)}});
}
template <typename F, typename X> void log_noisy(const F &fit, const std::vector<X> &xs, Rng &rng) {
  const auto ms = al::as_measurements(xs);
  if constexpr (al::is_variant<X>::value)
    log_predict("measured", fit, ms, rng);
  else {
    const auto pred = fit.predict_with_measurement_noise(xs);
    step({{"op", j("predict")}, {"kind", j("measured")}, {"xs", jfs(ms)}, {"mean", jv(pred.mean())}, {"marginal", jmarg(pred.marginal())}, {"joint", jjoint(pred.joint())}});
  }
}
// training features, places next to them, or anywhere
template <typename X> std::vector<X> places(const std::vector<X> &train, int n, Rng &rng) {
  auto xs = features<X>(n, rng);
  for (auto &x : xs)
    if (!train.empty() && rng.chance(1, 2))
      x = rng.pick(train);
  return xs;
}
template <typename F, typename X> void log_predictions(const F &fit, const std::vector<X> &train, Rng &rng) {
  log_predict("latent", fit, places(train, rng.range(0, 3), rng), rng);
  log_noisy(fit, places(train, rng.range(1, 3), rng), rng);
}
inline std::shared_ptr<ThreadPool> some_pool(Rng &rng) {
  return rng.coin() ? std::make_shared<ThreadPool>(static_cast<std::size_t>(rng.range(1, 4))) : nullptr;
}
template <typename C, typename M> auto begin(const E<C> &c, const E<M> &m, Rng &rng) {
  step({{"op", j("expr")}, {"expr", c.tree}, {"unit", j(unit())}});
  step({{"op", j("mean_expr")}, {"expr", m.tree}});
  auto model = al::gp_from_covariance_and_mean(c.cov, m.cov);
  model.set_thread_pool(some_pool(rng));
  return model;
}
// as many distinct features as there are up to n
template <typename X> std::vector<X> distinct(int n, Rng &rng) {
  std::vector<X> o;
  for (int i = 0; i < 50 && static_cast<int>(o.size()) < n; ++i) {
    const X x = Gen<X>::make(rng);
    if (std::find(o.begin(), o.end(), x) == o.end())
      o.push_back(x);
  }
  return o;
}
inline Eigen::MatrixXd some_spd(Eigen::Index n, Rng &rng) {
  const Eigen::MatrixXd A = Eigen::MatrixXd::NullaryExpr(n, n, [&]() { return rng.dyadic(-4, 4, 0.25); });
  return unit() * unit() * (A * A.transpose() + 0.25 * Eigen::MatrixXd::Identity(n, n));
}
