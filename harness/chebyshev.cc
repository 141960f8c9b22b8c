#define VERIF_EIGEN
#include <albatross/Common>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
using namespace albatross;

void exercise(int n, const std::vector<double> &xs) {
  label("chebyshev n=" + std::to_string(n) + " m=" + std::to_string(xs.size()));
  Eigen::ArrayXd x(static_cast<Eigen::Index>(xs.size()));
  for (std::size_t i = 0; i < xs.size(); ++i)
    x[static_cast<Eigen::Index>(i)] = xs[i];
  const J jx = jv(x.matrix());
  auto value = [&](const char *kind, const Eigen::ArrayXd &out) {
    single({{"op", j("value")}, {"kind", j(kind)}, {"n", j(n)}, {"x", jx}, {"out", jv(out.matrix())}, {"x_after", jv(x.matrix())}});
  };
  auto basis = [&](const char *kind, const Eigen::ArrayXXd &out) {
    single({{"op", j("basis")}, {"kind", j(kind)}, {"n", j(n)}, {"x", jx}, {"out", jm(out.matrix())}, {"x_after", jv(x.matrix())}});
  };
  value("T", chebyshev_t(n, x));
  value("U", chebyshev_u(n, x));
  basis("T", chebyshev_t_phi(n, x));
  basis("U", chebyshev_u_phi(n, x));
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  for (const auto &in : read_inputs(args.in)) {
    std::vector<double> xs;
    for (const auto &x : in["x"])
      xs.push_back(std::stod(x.get<std::string>()));
    exercise(in["n"], xs);
  }
  for (int k = 0; k < args.scale(150, 1500); ++k) {
    const int n = k % 10 == 9 ? rng.range(30, 150) : rng.range(0, 30);
    std::vector<double> xs;
    for (int m = rng.range(0, k % 15 == 14 ? 200 : 9); m-- > 0;)
      switch (rng.range(0, 5)) {
      case 0: xs.push_back(1.); break;
      case 1: xs.push_back(-1.); break;
      case 2: xs.push_back(0.); break;
      default: xs.push_back(rng.range(-1000000, 1000000) / 1000000.);
      }
    exercise(n > 60 && xs.size() > 20 ? 20 : n, xs);
  }
  return finish();
}
