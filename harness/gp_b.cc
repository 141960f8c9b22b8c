#include "gp_process.hpp"
void gp_b(Rng &rng, const Args &args) {
  process<Site>(cross(0.5) + noise<Site>(1.5) + meas(nugget(0.5)), site_mean(0.5), rng, args);
  large_process<Site>(cross(0.5) + noise<Site>(1.5) + meas(nugget(0.5)), site_mean(0.5), rng, args);
  process<VDS>(expo(2., 1.5) + noise<Site>(1.5) + cross(0.25) + meas(nugget(0.5)), linear_mean(0.5, 2.) + site_mean(0.25) + bias_mean<Site>(1.25), rng, args, false);
}
