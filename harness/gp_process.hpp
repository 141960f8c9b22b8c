#pragma once
#include "gp_check.hpp"
// a name of one of the parameters of the model
template <typename Model> std::string some_param(const Model &model, Rng &rng) {
  std::vector<std::string> names;
  for (const auto &p : model.get_params())
    names.push_back(p.first);
  return rng.pick(names);
}
template <typename X, typename C, typename M> void from_prediction(const E<C> &c, const E<M> &m, Rng &rng);
// far more data and far more to predict
template <typename X, typename C, typename M> void large_process(const E<C> &c, const E<M> &m, Rng &rng, const Args &args) {
  label("large process " + c.name + " " + m.name);
  for (int i = 0; i < args.scale(1, 6); ++i) {
    const auto model = begin(c, m, rng);
    const auto data = some_data<X>(rng.range(30, 44), rng);
    const auto fit = model.fit(data);
    log_fit(fit, data);
    log_predict("latent", fit, places(data.features, rng.range(18, 32), rng), rng);
    log_noisy(fit, places(data.features, rng.range(18, 32), rng), rng);
    Fields f = jdata("log_likelihood", data);
    f.push_back({"prior", j(model.prior_log_likelihood())});
    f.push_back({"out", j(model.log_likelihood(data))});
    step(f);
    end_behaviour();
  }
}
template <typename X, typename C, typename M> void process(const E<C> &c, const E<M> &m, Rng &rng, const Args &args, bool latent_ok = true) {
  label("process " + c.name + " " + m.name);
  for (int i = 0; i < args.scale(4, 30); ++i) {
    auto model = begin(c, m, rng);
    const auto data = some_data<X>(rng.range(1, 5), rng);
    auto fit = model.fit(data);
    log_fit(fit, data);
    log_predictions(fit, data.features, rng);
    const auto xs = places(data.features, rng.range(1, 4), rng);
    step({{"op", j("prior")}, {"xs", jfs(xs)}, {"out", jjoint(model.prior(xs))}});
    step({{"op", j("covariance")}, {"xs", jfs(xs)}, {"out", jm(model.compute_covariance(xs))}});
    step({{"op", j("same")}, {"what", j("two fits to the same data differ")}, {"equal", j(fit == model.fit(data.features, data.targets))}});
    // a model can change after it was fit
    const std::string name = some_param(model, rng);
    const double v = unit() == 1. ? rng.dyadic(4, 16, 0.25) : 1.25 * model.get_params().at(name).value;
    const auto before = fit.get_fit();
    model.set_param_value(name, v);
    step({{"op", j("set_param")}, {"name", j(name)}, {"value", j(v)}});
    log_predictions(fit, data.features, rng);
    step({{"op", j("same")}, {"what", j("a fit changed with its model")}, {"equal", j(before == fit.get_fit())}});
    Fields f = jdata("log_likelihood", data);
    f.push_back({"prior", j(model.prior_log_likelihood())});
    f.push_back({"out", j(model.log_likelihood(data))});
    step(f);
    al::GaussianProcessNegativeLogLikelihood nll;
    f.back().second = j(-nll(data, model));
    step(f);
    const auto again = model.fit(data);
    log_fit(again, data);
    log_predictions(again, data.features, rng);
    end_behaviour();
    if (latent_ok)
      from_prediction<X>(c, m, rng);
  }
}
// a process built from what another model predicted
template <typename F, typename X> void log_base(const F &fit, const std::vector<X> &u, const al::JointDistribution &p) {
  step({{"op", j("from_prediction")}, {"u", jfs(u)}, {"mean", jv(p.mean)}, {"cov", jm(p.covariance)}, {"train", jfs(fit.get_fit().train_features)}});
}
template <typename X, typename C, typename M> void from_prediction(const E<C> &c, const E<M> &m, Rng &rng) {
  const auto model = begin(c, m, rng);
  const auto u = distinct<X>(rng.range(1, 4), rng);
  const auto n = static_cast<Eigen::Index>(u.size());
  al::JointDistribution p(unit() * dyadics(static_cast<int>(n), rng), some_spd(n, rng));
  if (rng.coin()) {
    const auto data = some_data<X>(rng.range(1, 5), rng);
    p = model.fit(data).predict(u).joint();
  } else if (rng.chance(1, 3)) {
    p.covariance.setZero(); // exactly known values
  }
  const auto fit = model.fit_from_prediction(u, p);
  log_base(fit, u, p);
  log_predict("predicted features", fit, u, rng);
  log_predictions(fit, u, rng);
  end_behaviour();
}
void gp_a(Rng &rng, const Args &args);
void gp_b(Rng &rng, const Args &args);
void gp_c(Rng &rng, const Args &args);
