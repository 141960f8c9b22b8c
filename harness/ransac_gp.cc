#include "ransac_check.hpp"
struct Keyed { // features that carry their group
  template <typename X> static int of(const X &x);
};
template <> int Keyed::of(const double &x) { return static_cast<int>(std::floor(x / 4.)) + 10; }
template <> int Keyed::of(const Site &x) { return x.id * 3; }
struct KeyOf {
  template <typename X> int operator()(const X &x) const { return Keyed::of(x); }
};
struct PriorSum {
  double operator()(const al::JointDistribution &p, const al::MarginalDistribution &t) const {
    return p.mean.sum() + t.mean.sum() + p.covariance.trace() + t.covariance.diagonal().sum();
  }
};
struct Score {
  double limit;
  static double of(const al::JointDistribution &p, const al::MarginalDistribution &t) {
    return (t.mean - p.mean).sum() + 2. * (p.covariance.trace() + t.covariance.diagonal().sum());
  }
  bool operator()(const al::JointDistribution &p, const al::MarginalDistribution &t) const { return of(p, t) < limit; }
};
template <typename X> Keys keys_of(const std::vector<X> &xs) {
  Keys k;
  for (const auto &x : xs)
    k.push_back(Keyed::of(x));
  return k;
}
template <typename X> al::RegressionDataset<X> start(const std::vector<X> &xs, const J &cov, const J &mean, Rng &rng) {
  step({{"op", j("model")}, {"cov", cov}, {"mean", mean}});
  const al::RegressionDataset<X> data(xs, some_targets(static_cast<int>(xs.size()), rng));
  Fields f = jdata("data", data);
  f.push_back({"keys", j(keys_of(xs))});
  step(f);
  return data;
}
static Keys group_list(const Keys &keys) {
  const std::set<int> s(keys.begin(), keys.end());
  return Keys(s.begin(), s.end());
}
static Keys some_of(Keys groups, std::size_t n, Rng &rng) {
  rng.shuffle(groups);
  groups.resize(std::min(n, groups.size()));
  return groups;
}
template <typename F> void log_inliers(const char *strategy, const char *metric, const F &f, const Keys &groups, const Keys &c) {
  const auto fit = f.fitter(c);
  for (const int g : groups)
    step({{"op", j("inlier")}, {"strategy", j(strategy)}, {"metric", j(metric)}, {"groups", j(c)}, {"group", j(g)}, {"out", j(f.inlier_metric(g, fit))}});
}
template <typename F> void log_consensus(const char *metric, const F &f, const Keys &c, double prior = 0.) {
  step({{"op", j("consensus")}, {"metric", j(metric)}, {"groups", j(c)}, {"prior", j(prior)}, {"out", j(f.consensus_metric(c))}});
}
template <typename Model, typename Strategy, typename X> void wrapped(const Model &model, const Strategy &strategy, const al::RegressionDataset<X> &data, const Keys &groups, Rng &rng) {
  const int n = static_cast<int>(groups.size());
  const auto sample = static_cast<std::size_t>(rng.range(1, std::max(1, n - 1)));
  const al::RansacConfig config(rng.pick(std::vector<double>{2., 3., 4., 8., -HUGE_VAL}), sample, static_cast<std::size_t>(rng.range(static_cast<int>(sample), std::max<int>(static_cast<int>(sample), n - 1))),
                                static_cast<std::size_t>(rng.range(1, 6)), static_cast<std::size_t>(rng.range(0, 3)));
  const auto wrapper = model.ransac(strategy, config);
  const auto fit = wrapper.fit(data);
  const auto &inner = fit.get_fit();
  const auto f = strategy(model, data);
  log_begin(groups, config.inlier_threshold, config.random_sample_size, config.min_consensus_size, config.max_iterations, config.max_failed_candidates);
  log_output(inner.ransac_output, [&](std::size_t, const al::RansacIteration<int> &it) { return ask(f, groups, it); });
  const auto xs = places(data.features, rng.range(1, 3), rng);
  const Keys consensus = inner.ransac_output.best.consensus();
  al::JointDistribution joint(Eigen::VectorXd(0), Eigen::MatrixXd(0, 0));
  if (inner.has_fit_model())
    joint = fit.predict(xs).joint();
  step({{"op", j("wrapped")}, {"has", j(inner.has_fit_model())}, {"code", j(al::to_string(inner.ransac_output.return_code))}, {"consensus", j(consensus)}, {"xs", jfs(xs)}, {"joint", jjoint(joint)}});
}
template <typename X, typename C, typename M> void models(const E<C> &c, const E<M> &m, Rng &rng, const Args &args) {
  label("consensus of " + c.name);
  for (int i = 0; i < args.scale(10, 100); ++i) {
    auto xs = distinct<X>(rng.range(4, 8), rng);
    rng.shuffle(xs);
    const auto model = al::gp_from_covariance_and_mean(c.cov, m.cov);
    const auto data = start(xs, c.tree, m.tree, rng);
    const Keys groups = group_list(keys_of(xs));
    if (groups.size() < 2)
      continue;
    const Keys cands = some_of(groups, static_cast<std::size_t>(rng.range(1, 2)), rng);
    {
      const auto strategy = al::get_generic_ransac_strategy(al::NegativeLogLikelihood<al::JointDistribution>(), al::LeaveOneOutLikelihood<>(), KeyOf());
      const auto f = strategy(model, data);
      step({{"op", j("fitter")}, {"strategy", j("generic")}, {"groups", j(cands)}, {"out", jjoint(f.fitter(cands).predict(xs).joint())}});
      log_inliers("generic", "nll joint", f, groups, cands);
      log_consensus("loo nll", f, cands, model.prior_log_likelihood());
      wrapped(model, strategy, data, groups, rng);
    }
    {
      const auto strategy = al::get_generic_ransac_strategy(al::RootMeanSquareError(), al::LeaveOneOutRMSE(), KeyOf());
      const auto f = strategy(model, data);
      log_inliers("generic", "rmse", f, groups, cands);
      log_consensus("loo rmse", f, cands);
      wrapped(model, strategy, data, groups, rng);
    }
    {
      const Score score{rng.dyadic(0, 256, 0.5)};
      const auto strategy = al::gp_ransac_strategy(al::NegativeLogLikelihood<al::JointDistribution>(), PriorSum(), score, KeyOf());
      const auto f = strategy(model, data);
      const auto indexer = strategy.get_indexer(data);
      const al::ConditionalGaussian conditional(model.prior(xs), data.targets);
      std::vector<std::size_t> all(xs.size());
      std::iota(all.begin(), all.end(), 0);
      const auto fit = f.fitter(cands);
      step({{"op", j("fitter")}, {"strategy", j("gp")}, {"groups", j(cands)}, {"out", jjoint(al::get_prediction_reference(conditional, fit, all).joint())}});
      log_inliers("gp", "nll joint", f, groups, cands);
      log_consensus("prior sum", f, cands);
      const auto idx = al::indices_from_groups(indexer, cands);
      step({{"op", j("candidate")}, {"groups", j(cands)}, {"score", j(Score::of(conditional.get_prior(idx), conditional.get_truth(idx)))}, {"limit", j(score.limit)}, {"out", j(f.is_valid_candidate(cands))}});
      wrapped(model, strategy, data, groups, rng);
    }
    {
      KeyOf key;
      const auto strategy = al::gp_ransac_strategy(al::RootMeanSquareError(), al::FeatureCountConsensusMetric(), key);
      const auto f = strategy(model, data);
      log_inliers("gp", "rmse", f, groups, cands);
      log_consensus("count", f, cands);
      wrapped(model, strategy, data, groups, rng);
    }
    end_behaviour();
  }
}
void ransac_gp(Rng &rng, const Args &args) {
  models<double>(m32(2., 1.5) + meas(noise<double>(0.75)) + cst(2.), linear_mean(0.5, 2.) + bias_mean(3.), rng, args);
  models<double>(expo(2., 1.5), zero_mean(), rng, args);
}
