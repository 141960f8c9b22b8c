#include "lc_check.hpp"
void lc_b(Rng &rng, const Args &args) {
  combinations(noise<double>(0.5) + cross(1.5), rng, args, true);
  combinations(scale_ds(2.) * cst(1.5), rng, args, true);
  combinations(scale_d(0.5) * se(2., 1.5) + noise<Site>(2.), rng, args, true);
  combinations(poly<2>(1.5) * m52(3., 1.), rng, args, true);
  combinations(meas(noise<double>(0.5)) + cross(1.5), rng, args, false);
  combinations(meas(noise<double>(0.5)) + se(1.5, 2.), rng, args, false);
  combinations(seen(0.5, 1.5) * cst(2.) + meas(cross(1.)), rng, args, false);
}
