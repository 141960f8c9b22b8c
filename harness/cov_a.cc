#include "cov_check.hpp"
void exercise_a(Rng &rng, const Args &args) {
  exercise(se(2., 1.5), rng, args);
  exercise(expo(1.5, 2.), rng, args);
  exercise(m32(3., 0.5), rng, args);
  exercise(m52(2.5, 1.25), rng, args);
  exercise(m52<al::RadialDistance>(2.5, 1.25), rng, args);
  exercise(expo<al::AngularDistance>(0.75, 2.), rng, args);
  exercise(cst(3.), rng, args);
  exercise(noise<double>(0.5), rng, args);
}
