#include "gp_process.hpp"
void gp_a(Rng &rng, const Args &args) {
  process<double>(expo(2., 1.5), zero_mean(), rng, args);
  process<double>(m32(2., 1.5) + meas(noise<double>(0.75)) + cst(2.), linear_mean(0.5, 2.) + bias_mean(3.), rng, args);
  large_process<double>(m32(2., 1.5) + meas(noise<double>(0.75)) + cst(2.), linear_mean(0.5, 2.) + bias_mean(3.), rng, args);
  process<Eigen::VectorXd>(expo(2., 1.5) + meas(noise<Eigen::VectorXd>(0.5)), zero_mean(), rng, args);
  for (int k : {-24, 24, -100, 60}) { // the same in other units
    const double u = unit() = std::ldexp(1., k);
    process<double>(expo(2., 1.5 * u) + meas(noise<double>(0.75 * u)) + cst(2. * u), linear_mean(0.5 * u, 2. * u) + bias_mean(3. * u), rng, args);
  }
  unit() = 1.;
}
