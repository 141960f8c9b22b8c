#include "cv_check.hpp"
// a grouper that looks the key up by place: features are made distinct
template <typename K, typename X> auto grouper(const std::vector<X> &xs, const Ks &keys) {
  return [xs, keys](const X &x) {
    for (std::size_t i = 0; i < xs.size(); ++i)
      if (xs[i] == x)
        return K::of(keys[i]);
    return K::of(99);
  };
}
template <typename X, typename Model> void closed(const Model &model, const al::RegressionDataset<X> &data, const Ks &keys, Rng &rng) {
  using K = IntKey;
  const auto cv = model.cross_validate();
  const auto indexer = indexer_of<K>(keys);
  const auto pred = cv.predict(data, indexer);
  log_means("closed", pred.means());
  log_marginals("closed", pred.marginals());
  log_joints("closed", pred.joints());
  const al::MarginalDistribution m = pred.marginal();
  log_flat("closed", m.mean, m.covariance.diagonal());
  log_flat("closed", pred.mean());
  log_flat("closed", pred.template get<Eigen::VectorXd>());
  log_means("closed", pred.template get<std::map<int, Eigen::VectorXd>>());
  log_means("closed", pred.template get<al::Grouped<int, Eigen::VectorXd>>());
  const auto gm = pred.template get<al::MarginalDistribution>();
  log_flat("closed", gm.mean, gm.covariance.diagonal());
  log_marginals("closed", pred.template get<std::map<int, al::MarginalDistribution>>());
  log_marginals("closed", pred.template get<al::Grouped<int, al::MarginalDistribution>>());
  log_joints("closed", pred.template get<std::map<int, al::JointDistribution>>());
  log_joints("closed", pred.template get<al::Grouped<int, al::JointDistribution>>());
  log_scores("closed", "rmse", cv.scores(al::RootMeanSquareError(), data, indexer));
  log_scores("closed", "probe", cv.scores(Probe(), data, indexer));
  log_scores("closed", "nll marginal", cv.scores(al::NegativeLogLikelihood<al::MarginalDistribution>(), data, indexer));
  log_scores("closed", "nll joint", cv.scores(al::NegativeLogLikelihood<al::JointDistribution>(), data, indexer));
  // and refitting
  const auto folds = al::folds_from_group_indexer(data, indexer);
  log_folds(folds);
  step({{"op", j("size")}, {"out", j(al::dataset_size_from_folds(folds))}});
  const auto ps = rng.coin() ? pred.predictions() : cv.predictions(folds);
  log_means("refit", al::get_means(ps));
  log_marginals("refit", al::get_marginals(ps));
  log_joints("refit", al::get_joints(ps));
  log_scores("refit", "rmse", cv.scores(al::RootMeanSquareError(), folds));
  log_scores("refit", "nll marginal", cv.scores(al::NegativeLogLikelihood<al::MarginalDistribution>(), folds));
  log_scores("refit", "nll joint", al::cross_validated_scores(al::NegativeLogLikelihood<al::JointDistribution>(), folds, ps));
  const auto flat = al::concatenate_marginal_predictions(indexer, al::get_joints(ps));
  log_flat("refit", flat.mean, flat.covariance.diagonal());
  log_flat("refit", al::concatenate_mean_predictions(indexer, al::get_means(ps)));
}
// metrics of groups take a plain function
template <typename X> struct Grouping {
  static std::vector<X> xs;
  static Ks keys;
  static std::string of(const X &x) {
    for (std::size_t i = 0; i < xs.size(); ++i)
      if (xs[i] == x)
        return TextKey::of(keys[i]);
    return TextKey::of(99);
  }
};
template <typename X> std::vector<X> Grouping<X>::xs;
template <typename X> Ks Grouping<X>::keys;
template <typename X, typename Model> void by_function(const Model &model, const al::RegressionDataset<X> &data, const Ks &keys) {
  using K = TextKey;
  const auto cv = model.cross_validate();
  const auto g = grouper<K>(data.features, keys);
  const auto pred = cv.predict(data, g);
  const al::MarginalDistribution m = pred.marginal();
  log_flat("closed", m.mean, m.covariance.diagonal());
  log_joints("closed", pred.joints());
  log_joints("refit", al::get_joints(cv.predictions(data, g)));
  log_scores("closed", "rmse", cv.scores(al::RootMeanSquareError(), data, g));
  log_scores("closed", "nll joint", cv.scores(al::NegativeLogLikelihood<al::JointDistribution>(), data, g));
  const auto folds = al::folds_from_grouper(data, g);
  log_folds(folds);
  log_marginals("refit", al::get_marginals(al::get_predictions(model, folds)));
  log_scores("refit", "probe", cv.scores(Probe(), folds));
  log_scores("refit", "rmse", al::cross_validated_scores(al::RootMeanSquareError(), folds, al::get_means(al::get_predictions(model, folds))));
  Grouping<X>::xs = data.features;
  Grouping<X>::keys = keys;
  al::LeaveOneGroupOutLikelihood<X> lgo(&Grouping<X>::of);
  step({{"op", j("model_metric")}, {"name", j("leave one group out likelihood")}, {"metric", j("nll joint")}, {"how", j("closed")}, {"kind", j("sum")},
        {"prior", j(model.prior_log_likelihood())}, {"out", j(lgo(data, model))}});
  al::LeaveOneGroupOutLikelihood<X, al::MarginalDistribution> lgm(&Grouping<X>::of);
  step({{"op", j("model_metric")}, {"name", j("marginal leave one group out likelihood")}, {"metric", j("nll marginal")}, {"how", j("closed")}, {"kind", j("sum")},
        {"prior", j(model.prior_log_likelihood())}, {"out", j(lgm(data, model))}});
}
template <typename X, typename Model> void leave_one_out(const Model &model, const al::RegressionDataset<X> &data) {
  Ks keys(data.size());
  std::iota(keys.begin(), keys.end(), 0);
  log_keys(keys);
  const auto cv = model.cross_validate();
  const auto pred = cv.predict(data, al::LeaveOneOutGrouper());
  const al::MarginalDistribution m = pred.marginal();
  log_flat("closed", m.mean, m.covariance.diagonal());
  log_flat("closed", pred.mean());
  log_scores("closed", "rmse", cv.scores(al::RootMeanSquareError(), data, al::LeaveOneOutGrouper()));
  auto metric = [&](const char *name, const char *of, const char *kind, double out) {
    step({{"op", j("model_metric")}, {"name", j(name)}, {"metric", j(of)}, {"how", j("closed")}, {"kind", j(kind)}, {"prior", j(model.prior_log_likelihood())}, {"out", j(out)}});
  };
  metric("leave one out rmse", "rmse", "mean", al::LeaveOneOutRMSE()(data, model));
  metric("leave one out likelihood", "nll joint", "sum", al::LeaveOneOutLikelihood<>()(data, model));
  metric("marginal leave one out likelihood", "nll marginal", "sum", al::LeaveOneOutLikelihood<al::MarginalDistribution>()(data, model));
}
// groups that do not cover the data, or share some of it
template <typename X, typename Model> void partial(const Model &model, const al::RegressionDataset<X> &data, Rng &rng) {
  al::GroupIndexer<int> indexer;
  for (int g = 0; g < rng.range(1, 3); ++g) {
    std::vector<std::size_t> idx;
    for (std::size_t i = 0; i < data.size(); ++i)
      if (rng.chance(1, 2))
        idx.push_back(i);
    if (!idx.empty() && idx.size() < data.size())
      indexer[g * 3] = idx;
  }
  if (indexer.size() == 0)
    return;
  log_groups(indexer);
  const auto pred = model.cross_validate().predict(data, indexer);
  log_means("closed", pred.means());
  log_marginals("closed", pred.marginals());
  log_joints("closed", pred.joints());
  log_joints("refit", al::get_joints(pred.predictions()));
  log_scores("closed", "rmse", model.cross_validate().scores(al::RootMeanSquareError(), data, indexer));
}
template <typename X, typename C, typename M> void validate(const E<C> &c, const E<M> &m, Rng &rng, const Args &args) {
  label("cross validation of " + c.name);
  for (int i = 0; i < args.scale(4, 40); ++i) {
    auto model = al::gp_from_covariance_and_mean(c.cov, m.cov);
    model.set_thread_pool(some_pool(rng));
    auto start = [&] { step({{"op", j("model")}, {"kind", j("gp")}, {"cov", c.tree}, {"mean", m.tree}}); };
    start();
    auto xs = distinct<X>(rng.range(2, 7), rng);
    rng.shuffle(xs);
    const al::RegressionDataset<X> data(xs, some_targets(static_cast<int>(xs.size()), rng));
    log_data(data);
    const auto keys = some_keys(data.size(), rng);
    log_keys(keys);
    closed(model, data, keys, rng);
    by_function(model, data, keys);
    leave_one_out(model, data);
    partial(model, data, rng);
    end_behaviour();
    // the same place in several folds
    start();
    const auto repeated = some_data<X>(rng.range(2, 5), rng);
    log_data(repeated);
    const auto more = some_keys(repeated.size(), rng);
    log_keys(more);
    closed(model, repeated, more, rng);
    leave_one_out(model, repeated);
    end_behaviour();
  }
}
static void matrices(Rng &rng, const Args &args) {
  label("conditionals of matrices");
  for (int i = 0; i < args.scale(30, 400); ++i) {
    const int n = i % 15 == 4 ? rng.range(16, 24) : rng.range(1, 7);
    const al::JointDistribution prior(dyadics(n, rng), some_spd(n, rng));
    const auto truth = some_targets(n, rng);
    auto with = [&](const char *op, Fields f) {
      Fields all = {{"op", j(op)}, {"K", jm(prior.covariance)}, {"prior", jv(prior.mean)}, {"y", jv(truth.mean)}, {"noise", jv(truth.covariance.diagonal())}};
      all.insert(all.end(), f.begin(), f.end());
      step(all);
    };
    const auto loo = al::leave_one_out_conditional(prior, truth);
    Eigen::MatrixXd K = prior.covariance;
    K += truth.covariance;
    with("loo", {{"mean", jv(loo.mean)}, {"var", jv(loo.covariance.diagonal())}, {"only_var", jv(al::leave_one_out_conditional_variance(K))}});
    const auto keys = some_keys(static_cast<std::size_t>(n), rng);
    log_keys(keys);
    const auto indexer = indexer_of<TextKey>(keys);
    const auto pool = some_pool(rng);
    with("logo", {{"means", jmeans(al::leave_one_group_out_conditional_means(prior, truth, indexer, pool.get()))},
                  {"marginals", jmargs(al::leave_one_group_out_conditional_marginals(prior, truth, indexer, pool.get()))},
                  {"joints", jjoints(al::leave_one_group_out_conditional_joints(prior, truth, indexer, pool.get()))}});
    end_behaviour();
  }
}
void cv_gp(Rng &rng, const Args &args, const std::vector<Ks> &enumerated) {
  const auto c = se(2., 1.5) + meas(noise<double>(0.5)) + cst(2.);
  const auto m = linear_mean(0.5, 2.);
  label("every grouping");
  for (const auto &keys : enumerated) {
    const std::vector<double> xs = {3., -1., 0., 5., -4.};
    const std::vector<double> used(xs.begin(), xs.begin() + static_cast<long>(keys.size()));
    const al::RegressionDataset<double> data(used, some_targets(static_cast<int>(keys.size()), rng));
    auto model = al::gp_from_covariance_and_mean(c.cov, m.cov);
    model.set_thread_pool(some_pool(rng));
    step({{"op", j("model")}, {"kind", j("gp")}, {"cov", c.tree}, {"mean", m.tree}});
    log_data(data);
    log_keys(keys);
    const auto pred = model.cross_validate().predict(data, indexer_of<IntKey>(keys));
    const al::MarginalDistribution flat = pred.marginal();
    log_flat("closed", flat.mean, flat.covariance.diagonal());
    log_joints("closed", pred.joints());
    log_joints("refit", al::get_joints(pred.predictions()));
    end_behaviour();
  }
  validate<double>(expo(2., 1.5), zero_mean(), rng, args);
  validate<double>(m32(2., 1.5) + meas(noise<double>(0.75)) + cst(2.), linear_mean(0.5, 2.) + bias_mean(3.), rng, args);
  for (int i = 0; i < args.scale(1, 4); ++i) { // far more of everything
    label("large cross validation");
    auto model = al::gp_from_covariance_and_mean(c.cov, m.cov);
    model.set_thread_pool(some_pool(rng));
    step({{"op", j("model")}, {"kind", j("gp")}, {"cov", c.tree}, {"mean", m.tree}});
    std::vector<double> xs;
    for (int k = rng.range(20, 26); k > 0; --k)
      xs.push_back(0.5 * k);
    rng.shuffle(xs);
    const al::RegressionDataset<double> data(xs, some_targets(static_cast<int>(xs.size()), rng));
    log_data(data);
    Ks keys;
    for (std::size_t k = 0; k < xs.size(); ++k)
      keys.push_back(rng.range(0, i % 2 ? 3 : 17));
    log_keys(keys);
    const auto pred = model.cross_validate().predict(data, indexer_of<IntKey>(keys));
    const al::MarginalDistribution flat = pred.marginal();
    log_flat("closed", flat.mean, flat.covariance.diagonal());
    log_flat("closed", pred.mean());
    log_joints("closed", pred.joints());
    log_joints("refit", al::get_joints(pred.predictions()));
    leave_one_out(model, data);
    end_behaviour();
  }
  validate<Site>(cross(0.5) + nugget(1.), site_mean(1.5), rng, args);
  matrices(rng, args);
}
