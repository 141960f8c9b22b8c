#include "sgp_check.hpp"
// every grouping of a few measurements, in one or two batches, that the model emitted
template <typename QR> static void enumerated(const std::string &path, const QR &qr, Rng &rng) {
  label("enumerated");
  const auto c = cross(0.5) + cst(2.) + nugget(1.);
  const auto m = site_mean(0.5);
  const BySite g;
  for (const auto &in : read_inputs(path)) {
    std::vector<Site> xs;
    for (const auto &k : in.at("group"))
      xs.push_back({k.template get<int>(), rng.dyadic(-3, 3, 0.5)});
    const auto first = static_cast<std::size_t>(in.at("first").template get<int>());
    const al::RegressionDataset<Site> data(xs, some_targets(static_cast<int>(xs.size()), rng));
    std::vector<std::size_t> a, b;
    for (std::size_t i = 0; i < xs.size(); ++i)
      (i < first ? a : b).push_back(i);
    const GivenPoints<Site> s{distinct<Site>(rng.range(1, 3), rng)};
    auto model = al::sparse_gp_from_covariance_and_mean(c.cov, m.cov, g, s, "sparse", qr);
    log_model(model, c, m, 1e-8, 0.25, rng);
    const auto fit = log_sparse_fit(model, c, g, s, al::subset(data, a));
    log_sparse_predict("sparse fit", fit, xs, rng);
    if (!b.empty())
      log_batch(fit, g, al::subset(data, b), rng);
    end_behaviour();
  }
}
void sgp_c(const std::string &path, Rng &rng, const Args &) {
  enumerated(path, al::DenseQRImplementation(), rng);
  enumerated(path, al::SPQRImplementation(), rng);
}
