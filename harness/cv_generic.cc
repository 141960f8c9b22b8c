#include "cv_check.hpp"
#include <albatross/LeastSquares>
#include <albatross/NullModel>
// models without a closed form
class Spy;
namespace albatross {
template <> struct Fit<Spy> {
  double xy = 0., y = 0., noise = 0., n = 0.;
  bool operator==(const Fit &o) const { return xy == o.xy && y == o.y && noise == o.noise && n == o.n; }
};
} // namespace albatross
using SpyFit = al::Fit<Spy>;
class Spy : public al::ModelBase<Spy> {
public:
  SpyFit _fit_impl(const std::vector<double> &xs, const al::MarginalDistribution &targets) const {
    SpyFit f;
    for (std::size_t i = 0; i < xs.size(); ++i) {
      const auto k = static_cast<Eigen::Index>(i);
      f.xy += xs[i] * targets.mean[k];
      f.y += targets.mean[k];
      f.noise += targets.covariance.diagonal()[k];
      f.n += 1;
    }
    return f;
  }
  al::JointDistribution _predict_impl(const std::vector<double> &xs, const SpyFit &f, al::PredictTypeIdentity<al::JointDistribution>) const {
    const auto n = static_cast<Eigen::Index>(xs.size());
    al::JointDistribution out(Eigen::VectorXd(n), Eigen::MatrixXd::Constant(n, n, 0.25));
    for (Eigen::Index i = 0; i < n; ++i) {
      const double x = xs[static_cast<std::size_t>(i)];
      out.mean[i] = f.xy + f.y + 1000. * x;
      out.covariance(i, i) = f.noise + f.n + x * x;
    }
    return out;
  }
};
template <typename Model> void generic(const char *kind, const Model &model, const Ks &keys, Rng &rng) {
  step({{"op", j("model")}, {"kind", j(kind)}, {"cov", j("none")}, {"mean", j("none")}});
  auto xs = features<double>(static_cast<int>(keys.size()), rng);
  if (std::string(kind) == "line") {
    auto scaled = distinct<double>(static_cast<int>(keys.size()), rng);
    for (std::size_t i = 0; i < xs.size(); ++i)
      xs[i] = i < scaled.size() ? scaled[i] : 10. + static_cast<double>(i);
  }
  auto targets = some_targets(static_cast<int>(keys.size()), rng);
  if (std::string(kind) == "line")
    targets.covariance.diagonal().setConstant(0.5);
  const al::RegressionDataset<double> data(xs, targets);
  log_data(data);
  log_keys(keys);
  const auto cv = model.cross_validate();
  const auto indexer = indexer_of<IntKey>(keys);
  const auto pred = cv.predict(data, indexer);
  log_flat("refit", pred.mean());
  log_means("refit", pred.means());
  log_means("refit", pred.template get<al::Grouped<int, Eigen::VectorXd>>());
  log_scores("refit", "rmse", cv.scores(al::RootMeanSquareError(), data, indexer));
  log_scores("refit", "probe", cv.scores(Probe(), data, indexer));
  const auto folds = al::folds_from_group_indexer(data, indexer);
  log_scores("refit", "rmse", cv.scores(al::RootMeanSquareError(), folds));
  log_means("refit", al::get_means(cv.predictions(folds)));
  if constexpr (!std::is_same<Model, al::LinearRegression>::value) {
    const al::MarginalDistribution m = pred.marginal();
    log_flat("refit", m.mean, m.covariance.diagonal());
    log_marginals("refit", pred.marginals());
    log_joints("refit", pred.joints());
    log_marginals("refit", pred.template get<std::map<int, al::MarginalDistribution>>());
    log_joints("refit", pred.template get<al::Grouped<int, al::JointDistribution>>());
    log_joints("refit", al::get_joints(cv.predictions(folds)));
    log_scores("refit", "nll joint", cv.scores(al::NegativeLogLikelihood<al::JointDistribution>(), data, indexer));
    log_scores("refit", "nll marginal", cv.scores(al::NegativeLogLikelihood<al::MarginalDistribution>(), folds));
    // a metric of means given distributions
    const al::PredictionMetric<Eigen::VectorXd> rmse = al::RootMeanSquareError(), probe = Probe();
    log_scores("refit", "rmse", al::cross_validated_scores(rmse, folds, pred.marginals()));
    log_scores("refit", "probe", al::cross_validated_scores(probe, folds, pred.joints()));
  }
  end_behaviour();
}
void cv_generic(Rng &rng, const Args &args, const std::vector<Ks> &enumerated) {
  label("models without a closed form");
  for (const auto &keys : enumerated)
    generic("spy", Spy(), keys, rng);
  for (int i = 0; i < args.scale(10, 100); ++i) {
    generic("spy", Spy(), some_keys(static_cast<std::size_t>(i == 3 ? rng.range(64, 80) : rng.range(1, 12)), rng), rng);
    generic("null", al::NullModel(), some_keys(static_cast<std::size_t>(i == 3 ? rng.range(64, 80) : rng.range(1, 6)), rng), rng);
    // at least two points outside every fold
    Ks keys = {0, 1, 2, 0, 1};
    for (int k = rng.range(0, 4); k > 0; --k)
      keys.push_back(rng.range(0, 2));
    rng.shuffle(keys);
    generic("line", al::LinearRegression(), keys, rng);
  }
}
