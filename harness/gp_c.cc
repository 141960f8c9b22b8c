#include "gp_process.hpp"
void gp_c(Rng &rng, const Args &args) {
  process<LC<double>>(m52(2., 1.5) + noise<double>(0.5) + cst(1.), linear_mean(0.5, 2.), rng, args, false);
  process<double>(scale_ds(2.) * expo(3., 1.5) + noise<double>(0.5) + meas(se(1., 1.) * cst(0.5)), linear_mean(0.5, 2.) + zero_mean(), rng, args, false);
}
