#include "sgp_check.hpp"
template <typename QR> static void histories(const QR &qr, Rng &rng, const Args &args) {
  const auto c = m32(2., 1.5) + expo(3., 1.) * cst(1.) + meas(noise<double>(0.75)) + cross(0.25) + cst(1.);
  const auto m = linear_mean(0.5, 2.) + site_mean(1.5) + bias_mean(1.25);
  const BySite g;
  for (int i = 0; i < args.scale(12, 100); ++i) {
    label("history");
    const auto first = some_data<double>(rng.range(1, 4), rng);
    const auto second = some_data<Site>(rng.range(1, 3), rng);
    const auto third = some_data<VDS>(rng.range(1, 3), rng);
    const auto fourth = some_data<LC<double>>(rng.range(1, 2), rng);
    const GivenPoints<double> s{inducing(first, rng.range(1, 3), rng)};
    auto model = al::sparse_gp_from_covariance_and_mean(c.cov, m.cov, g, GivenPoints<double>{{0.}}, "sparse", qr);
    model.set_inducing_point_strategy(GivenPoints<double>(s));
    const bool big = rng.coin();
    log_model(model, c, m, big ? 0.25 : 1e-8, big ? 0.5 : 1e-8, rng);
    const auto fit = log_sparse_fit(model, c, g, s, first);
    const auto a = log_batch(fit, g, second, rng);
    const auto b = log_batch(a, g, third, rng);
    log_batch(b, g, fourth, rng);
    end_behaviour();
    if (big)
      continue;
    label("history re-based");
    log_model(model, c, m, 1e-8, 1e-8, rng);
    const auto fit2 = log_sparse_fit(model, c, g, s, first);
    const auto once = log_rebase(fit2, distinct<double>(rng.range(1, 3), rng), rng);
    const auto more = log_batch(once, g, third, rng);
    auto sites = distinct<Site>(rng.range(1, 2), rng);
    sites.back().x = sites[0].x + (sites.size() - 1) * rng.range(2, 4); // only a line through sites is uncertain
    const auto twice = log_rebase(more, sites, rng);
    log_batch(twice, g, second, rng);
    end_behaviour();
    label("history from a prediction");
    log_model(model, c, m, 1e-8, 1e-8, rng);
    const auto u = distinct<double>(rng.range(1, 3), rng);
    const auto k = static_cast<Eigen::Index>(u.size());
    const al::JointDistribution p(dyadics(static_cast<int>(k), rng), some_spd(k, rng));
    const auto based = model.fit_from_prediction(u, p);
    step({{"op", j("from_prediction")}, {"u", jfs(u)}, {"mean", jv(p.mean)}, {"cov", jm(p.covariance)}});
    log_sparse_predict("from a prediction", based, u, rng);
    log_batch(based, g, first, rng);
    end_behaviour();
    label("history of a changed model");
    log_model(model, c, m, 0.125, 0.25, rng);
    log_sparse_fit(model, c, g, s, first);
    const std::string name = rng.pick(std::vector<std::string>{"matern_32_length_scale", "slope", "sigma_constant", "sigma_independent_noise", "cross_scale"});
    if (name != "sigma_constant") { // two leaves have that name
      const double v = 0.25 * rng.range(1, 8);
      model.set_param_value(name, v);
      step({{"op", j("set_param")}, {"name", j(name)}, {"value", j(v)}});
    }
    log_sparse_likelihood(model, c, g, s, first);
    const auto refit = log_sparse_fit(model, c, g, s, first);
    log_sparse_predict("refit", refit, first.features, rng);
    end_behaviour();
  }
}
void sgp_b(Rng &rng, const Args &args) {
  histories(al::DenseQRImplementation(), rng, args);
  histories(al::SPQRImplementation(), rng, args);
}
