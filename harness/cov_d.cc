#include "cov_check.hpp"
void exercise_d(Rng &rng, const Args &args) {
  exercise(meas(se(2., 1.5) + cst(0.5)) + m52(1., 1.) * poly<1>(0.5), rng, args);
  exercise((se(2., 1.5) + cst(0.5)) * (noise<Site>(2.) + m32<al::RadialDistance>(2., 1.5)), rng, args);
  exercise(meas(cross(1.5)) + expo(1., 1.), rng, args);
  exercise(meas(cst(1.5)) * se(1., 1.) + nugget(2.), rng, args);
  exercise(scale_d(1.) * (cst(2.) + meas(noise<double>(0.5))), rng, args);
}
