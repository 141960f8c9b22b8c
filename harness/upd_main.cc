#include "upd.hpp"
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  label("enumerated");
  const auto c = se(2., 1.5) + meas(noise<double>(0.5)) + cst(2.);
  const auto m = linear_mean(0.5, 2.);
  for (const auto &in : read_inputs(args.in)) {
    const auto sizes = in.at("sizes").get<std::vector<int>>();
    if (sizes.size() < 2 || sizes.size() > 4)
      continue;
    std::vector<double> xs;
    for (const auto &x : in.at("xs"))
      xs.push_back(x.get<int>());
    const auto model = begin(c, m, rng);
    const al::RegressionDataset<double> data(xs, some_targets(static_cast<int>(xs.size()), rng));
    split<3>(model, data, sizes, std::vector<double>{-1., 0.5}, rng);
    end_behaviour();
  }
  upd_a(rng, args);
  upd_b(rng, args);
  return finish();
}
