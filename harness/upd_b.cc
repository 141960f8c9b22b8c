#include "upd.hpp"
void upd_b(Rng &rng, const Args &args) {
  random_splits<2, VDS>(expo(2., 1.5) + noise<Site>(1.5) + cross(0.25) + meas(nugget(0.5)), linear_mean(0.5, 2.) + site_mean(0.25) + bias_mean<Site>(1.25), rng, args, false);
  random_splits<2, LC<double>>(m52(2., 1.5) + noise<double>(0.5) + cst(1.), linear_mean(0.5, 2.), rng, args, false);
  across<double, Site>(expo(2., 1.5) + noise<Site>(1.5) + cross(0.25) + meas(nugget(0.5)), linear_mean(0.5, 2.) + site_mean(0.25), rng, args);
  across<Site, double>(cross(0.25) + noise<Site>(1.5) + meas(nugget(0.5)), linear_mean(1., -1.) + site_mean(0.25), rng, args);
}
