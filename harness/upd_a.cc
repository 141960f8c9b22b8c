#include "upd.hpp"
void upd_a(Rng &rng, const Args &args) {
  random_splits<5, double>(expo(2., 1.5) + meas(nugget(0.75)), linear_mean(0.5, 2.) + bias_mean(3.), rng, args);
  random_splits<2, Eigen::VectorXd>(expo(2., 1.5) + meas(noise<Eigen::VectorXd>(0.5)), zero_mean(), rng, args);
  random_splits<2, Site>(cross(0.5) + noise<Site>(1.5) + meas(nugget(0.5)), site_mean(0.5), rng, args);
  for (int k : {-24, 24, -100, 60}) { // the same in other units
    const double u = unit() = std::ldexp(1., k);
    random_splits<2, double>(expo(2., 1.5 * u) + meas(nugget(0.75 * u)), linear_mean(0.5 * u, 2. * u) + bias_mean(3. * u), rng, args);
  }
  unit() = 1.;
}
