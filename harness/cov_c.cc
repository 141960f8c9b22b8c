#include "cov_check.hpp"
void exercise_c(Rng &rng, const Args &args) {
  exercise(cst(2.) * se(2., 1.5), rng, args);
  exercise(seen(0.5, 1.5) * m32(2., 1.) + meas(noise<double>(0.75)), rng, args);
  exercise(meas(seen(0.5, 1.5)) + cst(0.25) * noise<Site>(1.), rng, args, false);
  exercise(cross(0.5) * poly<1>(1.25), rng, args);
  exercise(noise<double>(1.5) * expo<al::RadialDistance>(2., 0.5), rng, args);
  exercise(scale_d(0.5) * se(2., 1.5), rng, args);
  exercise(cst(1.5) * scale_ds(2.), rng, args);
  exercise(scale_ds(2.) * cst(1.5) + meas(noise<double>(0.75)), rng, args);
  exercise(nugget(0.5) + m32(2., 1.) * (cst(0.5) + cross(0.25)), rng, args);
}
