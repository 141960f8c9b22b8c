#include "gp_process.hpp"
// every dataset the model emitted: a few places, each measured any number of times
static void enumerated(const std::string &path, Rng &rng) {
  label("enumerated");
  const auto c = se(2., 1.5) + meas(noise<double>(0.5)) + cst(2.);
  const auto m = linear_mean(0.5, 2.);
  for (const auto &in : read_inputs(path)) {
    if (in.at("sizes").size() != 1)
      continue;
    std::vector<double> xs, all = {-1., 0., 2.};
    for (const auto &x : in.at("xs"))
      xs.push_back(x.get<int>());
    const auto model = begin(c, m, rng);
    const al::RegressionDataset<double> data(xs, some_targets(static_cast<int>(xs.size()), rng));
    const auto fit = model.fit(data);
    log_fit(fit, data);
    log_predict("latent", fit, all, rng);
    log_noisy(fit, all, rng);
    end_behaviour();
  }
}
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  enumerated(args.in, rng);
  gp_a(rng, args);
  gp_b(rng, args);
  gp_c(rng, args);
  return finish();
}
