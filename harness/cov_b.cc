#include "cov_check.hpp"
void exercise_b(Rng &rng, const Args &args) {
  exercise(nugget(0.25), rng, args);
  exercise(poly<2>(1.5), rng, args);
  exercise(poly<4>(0.5), rng, args);
  exercise(cross(0.5), rng, args);
  exercise(seen(0.5, 1.5), rng, args);
  exercise(meas(noise<double>(0.5)), rng, args);
  exercise(meas(se(2., 1.5)), rng, args);
  exercise(se(2., 1.5) + noise<Site>(0.5), rng, args);
  exercise(se(2., 1.5) + meas(noise<double>(0.5)), rng, args);
  exercise(meas(noise<Site>(0.5)) + (cst(2.) + cross(1.5)), rng, args);
}
